package main

// Persistent heap: a radix trie from object id to value with copy-on-write nodes.
// Forking a state is O(1); merging walks only the parts that differ.

const hbits = 4
const hfan = 1 << hbits

type hnode struct {
	owner *int
	kids  [hfan]*hnode
	vals  *[hfan]Value
}

type Heap struct {
	root  *hnode
	depth int // levels below root
	owner *int
}

func newHeap() *Heap {
	o := new(int)
	return &Heap{root: &hnode{owner: o, vals: &[hfan]Value{}}, depth: 0, owner: o}
}

func (h *Heap) fork() *Heap {
	h.owner = new(int)
	return &Heap{root: h.root, depth: h.depth, owner: new(int)}
}

func (h *Heap) get(id int32) Value {
	if id>>(uint(h.depth+1)*hbits) != 0 {
		return nil
	}
	n := h.root
	for d := h.depth; d > 0; d-- {
		n = n.kids[(id>>(uint(d)*hbits))&(hfan-1)]
		if n == nil {
			return nil
		}
	}
	return n.vals[id&(hfan-1)]
}

func (n *hnode) own(o *int) *hnode {
	if n.owner == o {
		return n
	}
	m := &hnode{owner: o, kids: n.kids}
	if n.vals != nil {
		v := *n.vals
		m.vals = &v
	}
	return m
}

func (h *Heap) set(id int32, v Value) {
	for id>>(uint(h.depth+1)*hbits) != 0 {
		nr := &hnode{owner: h.owner}
		nr.kids[0] = h.root
		h.root = nr
		h.depth++
	}
	h.root = h.root.own(h.owner)
	n := h.root
	for d := h.depth; d > 0; d-- {
		i := (id >> (uint(d) * hbits)) & (hfan - 1)
		k := n.kids[i]
		if k == nil {
			k = &hnode{owner: h.owner}
			if d == 1 {
				k.vals = &[hfan]Value{}
			}
		} else {
			k = k.own(h.owner)
		}
		n.kids[i] = k
		n = k
	}
	n.vals[id&(hfan-1)] = v
}

// mergeHeap merges b into a copy of a: objects present in only one side are kept.
func (w *Worker) mergeHeap(g *Term, a, b *Heap) (*Heap, bool) {
	for a.depth < b.depth {
		nr := &hnode{owner: a.owner}
		nr.kids[0] = a.root
		a = &Heap{root: nr, depth: a.depth + 1, owner: a.owner}
	}
	for b.depth < a.depth {
		nr := &hnode{owner: b.owner}
		nr.kids[0] = b.root
		b = &Heap{root: nr, depth: b.depth + 1, owner: b.owner}
	}
	o := new(int)
	r, ok := w.mergeNode(g, a.root, b.root, a.depth, o)
	if !ok {
		return nil, false
	}
	return &Heap{root: r, depth: a.depth, owner: o}, true
}

func (w *Worker) mergeNode(g *Term, a, b *hnode, d int, o *int) (*hnode, bool) {
	if a == b || b == nil {
		return a, true
	}
	if a == nil {
		return b, true
	}
	var n *hnode
	if d == 0 {
		for i := 0; i < hfan; i++ {
			x, y := a.vals[i], b.vals[i]
			if y == nil || fastSame(x, y) {
				continue
			}
			var v Value
			if x == nil {
				v = y
			} else {
				var ok bool
				v, ok = w.mergeVal(g, x, y)
				if !ok {
					return nil, false
				}
			}
			if n == nil {
				vv := *a.vals
				n = &hnode{owner: o, vals: &vv}
			}
			n.vals[i] = v
		}
	} else {
		for i := 0; i < hfan; i++ {
			k, ok := w.mergeNode(g, a.kids[i], b.kids[i], d-1, o)
			if !ok {
				return nil, false
			}
			if k != a.kids[i] {
				if n == nil {
					n = &hnode{owner: o, kids: a.kids}
				}
				n.kids[i] = k
			}
		}
	}
	if n == nil {
		return a, true
	}
	return n, true
}
