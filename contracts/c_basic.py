from ctl import C, L
CONTRACTS = [
  C('utilities::hash32', 'a', trusted=True, note='32-bit mixing with signed overflow; only determinism is used', ens=[('deterministic', '{result} = hash32 {a}')]),
  C('Point::operator==', 'other', ens=[('equality is coordinate-wise closeness', '{result} <-> peq {self} {other}')]),
  C('Point::operator<', 'other', ens=[('ordering is lexicographic up to the tolerance', '{result} <-> plt {self} {other}')]),
  C('BoundingBox::getWidth', ens=[('width', '{result} = bx1 {self} -. bx0 {self}')], uses='Box'),
  C('BoundingBox::contains', 'p', ens=[('contains', '{result} <-> (rmin (px {self}.boundingbox_p1) (px {self}.boundingbox_p2) <=. px {p} <=. rmax (px {self}.boundingbox_p1) (px {self}.boundingbox_p2) /\\ rmin (py {self}.boundingbox_p1) (py {self}.boundingbox_p2) <=. py {p} <=. rmax (py {self}.boundingbox_p1) (py {self}.boundingbox_p2))')]),
]
