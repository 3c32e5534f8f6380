// eager, verified equivalents of the lazy iterator adaptors the code uses on constant tables
pub struct VxFiltered<'a, T, F> { pub items: Vec<&'a T>, pub idx: Ghost<Seq<int>>, pub src: Ghost<Seq<T>>, pub f: Ghost<F> }
impl<'a, T, F: Fn(&T) -> bool> VxFiltered<'a, T, F> {
    pub open spec fn wf(&self) -> bool {
        &&& self.items@.len() == self.idx@.len()
        &&& forall|k: int| 0 <= k < self.idx@.len() ==> 0 <= #[trigger] self.idx@[k] < self.src@.len() && *self.items@[k] == self.src@[self.idx@[k]] && self.f@.ensures((&self.src@[self.idx@[k]],), true)
        &&& forall|k: int, l: int| 0 <= k < l < self.idx@.len() ==> self.idx@[k] < self.idx@[l]
        &&& forall|i: int| 0 <= i < self.src@.len() && !self.idx@.contains(i) ==> self.f@.ensures((&#[trigger] self.src@[i],), false)
    }
    pub fn last(self) -> (r: Option<&'a T>)
        requires self.wf()
        ensures
            r is Some ==> exists|i: int| 0 <= i < self.src@.len() && *r->Some_0 == #[trigger] self.src@[i] && self.f@.ensures((&self.src@[i],), true)
                && forall|j: int| i < j < self.src@.len() ==> self.f@.ensures((&#[trigger] self.src@[j],), false),
            r is None ==> forall|j: int| 0 <= j < self.src@.len() ==> self.f@.ensures((&#[trigger] self.src@[j],), false),
    {
        let n = self.items.len();
        if n == 0 { proof { assert forall|j: int| 0 <= j < self.src@.len() implies self.f@.ensures((&#[trigger] self.src@[j],), false) by { assert(!self.idx@.contains(j)); } } None } else {
            proof {
                let i = self.idx@[n - 1];
                assert forall|j: int| i < j < self.src@.len() implies self.f@.ensures((&#[trigger] self.src@[j],), false) by {
                    if self.idx@.contains(j) { let k = choose|k: int| 0 <= k < self.idx@.len() && self.idx@[k] == j; assert(k <= n - 1); }
                }
                assert(*self.items@[n - 1] == self.src@[i]);
            }
            Some(self.items[n - 1])
        }
    }
    pub fn next(self) -> (r: Option<&'a T>)
        requires self.wf()
        ensures
            r is Some ==> exists|i: int| 0 <= i < self.src@.len() && *r->Some_0 == #[trigger] self.src@[i] && self.f@.ensures((&self.src@[i],), true)
                && forall|j: int| 0 <= j < i ==> self.f@.ensures((&#[trigger] self.src@[j],), false),
            r is None ==> forall|j: int| 0 <= j < self.src@.len() ==> self.f@.ensures((&#[trigger] self.src@[j],), false),
    {
        let n = self.items.len();
        if n == 0 { proof { assert forall|j: int| 0 <= j < self.src@.len() implies self.f@.ensures((&#[trigger] self.src@[j],), false) by { assert(!self.idx@.contains(j)); } } None } else {
            proof {
                let i = self.idx@[0];
                assert forall|j: int| 0 <= j < i implies self.f@.ensures((&#[trigger] self.src@[j],), false) by {
                    if self.idx@.contains(j) { let k = choose|k: int| 0 <= k < self.idx@.len() && self.idx@[k] == j; assert(k >= 0); if k > 0 { assert(self.idx@[0] < self.idx@[k]); } }
                }
                assert(*self.items@[0] == self.src@[i]);
            }
            Some(self.items[0])
        }
    }
}
pub fn vx_filter<'a, T, F: Fn(&T) -> bool>(v: &'a Vec<T>, f: F) -> (r: VxFiltered<'a, T, F>)
    requires forall|x: &T| f.requires((x,))
    ensures r.wf(), r.src@ == v@, r.f@ == f
{
    let mut items: Vec<&'a T> = Vec::new();
    let ghost mut idx: Seq<int> = Seq::empty();
    let n = v.len();
    let mut i: usize = 0;
    while i < n
        invariant
            n == v@.len(), i <= n, forall|x: &T| f.requires((x,)),
            items@.len() == idx.len(),
            forall|k: int| 0 <= k < idx.len() ==> 0 <= #[trigger] idx[k] < i && *items@[k] == v@[idx[k]] && f.ensures((&v@[idx[k]],), true),
            forall|k: int, l: int| 0 <= k < l < idx.len() ==> idx[k] < idx[l],
            forall|j: int| 0 <= j < i && !idx.contains(j) ==> f.ensures((&#[trigger] v@[j],), false),
        decreases n - i
    {
        let ghost old_idx = idx;
        let x = &v[i];
        if f(x) {
            items.push(x);
            proof {
                idx = idx.push(i as int);
                assert forall|j: int| 0 <= j < i + 1 && !idx.contains(j) implies f.ensures((&#[trigger] v@[j],), false) by {
                    if j == i { assert(idx[idx.len() - 1] == j); } else if old_idx.contains(j) { let k = choose|k: int| 0 <= k < old_idx.len() && old_idx[k] == j; assert(idx[k] == j); }
                }
            }
        }
        i += 1;
    }
    VxFiltered { items, idx: Ghost(idx), src: Ghost(v@), f: Ghost(f) }
}
pub fn vx_find<'a, T, F: Fn(&T) -> bool>(v: &'a Vec<T>, f: F) -> (r: Option<&'a T>)
    requires forall|x: &T| f.requires((x,))
    ensures
        r is Some ==> exists|i: int| 0 <= i < v@.len() && *r->Some_0 == #[trigger] v@[i] && f.ensures((&v@[i],), true)
            && forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] v@[j],), false),
        r is None ==> forall|j: int| 0 <= j < v@.len() ==> f.ensures((&#[trigger] v@[j],), false),
{
    let r = vx_filter(v, f).next();
    r
}
