package main

import (
	"bytes"
	"errors"
	"runtime"

	dbm "github.com/cosmos/cosmos-db"
	"github.com/tidwall/btree"
)

// SimDB is the simulated disk of one node: an ordered key-value store with a
// write-ahead journal. Units (single writes or whole batches, as goleveldb
// makes them atomic) not yet followed by a synchronous write are lost, all or
// from some point on, when the node crashes.

type kv struct{ k, v []byte }

func kvLess(a, b kv) bool { return bytes.Compare(a.k, b.k) < 0 }

type dbOp struct {
	k, v []byte
	del  bool
}

type SimDB struct {
	live    *btree.BTreeG[kv]
	durable *btree.BTreeG[kv]
	pending [][]dbOp // units since the last sync
	ops     int      // write units so far in this process life
	reads   int

	// fault plan
	killAt  int // kill the process at this write unit (1-based), 0 = never
	after   bool
	errAt   int // return an I/O error at this write unit
	rerrAt  int // return an I/O error at this read
	errHit  bool
	killed  bool
	stats   *Stats
	syncs   int
	crashes int

	pend []byte // where the root of a small tree may have gone
	lost *bool  // the storage library did not find a root it had moved itself
}

// moved notices the reads by which IAVL 1.1.2 loses a tree: pruning moves the
// root node of a version that later versions share from nonce 1 to nonce 0;
// looking up a root tries both places, looking up a node only the first.
func (d *SimDB) moved(next []byte) {
	if d.pend != nil && !bytes.Equal(d.pend, next) {
		*d.lost = true
	}
	d.pend = nil
}

func (d *SimDB) missed(k []byte) {
	if l := len(k); l > 13 && k[l-13] == 's' && bytes.Equal(k[l-4:], []byte{0, 0, 0, 1}) {
		alt := cp(k)
		alt[l-1] = 0
		if _, ok := d.live.Get(kv{k: alt}); ok {
			d.pend = alt
		}
	}
}

func newTree() *btree.BTreeG[kv] {
	return btree.NewBTreeGOptions(kvLess, btree.Options{NoLocks: true})
}

func NewSimDB(st *Stats) *SimDB {
	return &SimDB{live: newTree(), durable: newTree(), stats: st, lost: new(bool)}
}

// Crash drops the process's memory: of the pending units only the first keep
// survive (keep < 0: all).
func (d *SimDB) Crash(keep int) {
	if keep < 0 || keep > len(d.pending) {
		keep = len(d.pending)
	}
	for _, u := range d.pending[:keep] {
		applyUnit(d.durable, u)
	}
	d.stats.Inc("db_lost_units", len(d.pending)-keep)
	d.pending = nil
	d.live = d.durable.Copy()
	d.ops, d.reads, d.killAt, d.errAt, d.rerrAt = 0, 0, 0, 0, 0
	d.killed = false
	d.crashes++
}

// Fork returns an independent copy of the disk as the live process sees it.
func (d *SimDB) Fork() *SimDB {
	return &SimDB{live: d.live.Copy(), durable: d.live.Copy(), stats: d.stats, lost: d.lost}
}

func applyUnit(t *btree.BTreeG[kv], u []dbOp) {
	for _, o := range u {
		if o.del {
			t.Delete(kv{k: o.k})
		} else {
			t.Set(kv{o.k, o.v})
		}
	}
}

var errDisk = errors.New("simulated disk: input/output error")

func (d *SimDB) die() {
	d.killed = true
	runtime.Goexit()
}

func (d *SimDB) write(u []dbOp, sync bool) error {
	if d.killed {
		runtime.Goexit()
	}
	d.ops++
	d.moved(nil)
	if dbgF != nil {
		dbg("write %v", sync)
		for _, o := range u {
			dbg("  %x = %x %v", o.k, o.v, o.del)
		}
	}
	if d.errAt != 0 && d.ops == d.errAt {
		d.stats.Inc("fault_disk_write_error", 1)
		d.errHit = true
		return errDisk
	}
	if d.killAt != 0 && d.ops == d.killAt && !d.after {
		d.stats.Inc("fault_kill_before_write", 1)
		d.die()
	}
	applyUnit(d.live, u)
	d.pending = append(d.pending, u)
	if sync {
		d.syncs++
		for _, p := range d.pending {
			applyUnit(d.durable, p)
		}
		d.pending = nil
	}
	if d.killAt != 0 && d.ops == d.killAt && d.after {
		d.stats.Inc("fault_kill_after_write", 1)
		d.die()
	}
	return nil
}

func cp(b []byte) []byte { return append([]byte{}, b...) }

func (d *SimDB) Get(k []byte) ([]byte, error) {
	if len(k) == 0 {
		return nil, errors.New("key empty")
	}
	d.reads++
	d.moved(k)
	if dbgF != nil {
		dbg("get %x", k)
	}
	if d.rerrAt != 0 && d.reads == d.rerrAt {
		d.stats.Inc("fault_disk_read_error", 1)
		d.errHit = true
		return nil, errDisk
	}
	e, ok := d.live.Get(kv{k: k})
	if !ok {
		d.missed(k)
		return nil, nil
	}
	return cp(e.v), nil
}
func (d *SimDB) Has(k []byte) (bool, error) {
	d.reads++
	d.moved(nil)
	_, ok := d.live.Get(kv{k: k})
	return ok, nil
}
func (d *SimDB) Set(k, v []byte) error {
	if len(k) == 0 || v == nil {
		return errors.New("bad key or value")
	}
	return d.write([]dbOp{{k: cp(k), v: cp(v)}}, false)
}
func (d *SimDB) SetSync(k, v []byte) error { return d.write([]dbOp{{k: cp(k), v: cp(v)}}, true) }
func (d *SimDB) Delete(k []byte) error     { return d.write([]dbOp{{k: cp(k), del: true}}, false) }
func (d *SimDB) DeleteSync(k []byte) error { return d.write([]dbOp{{k: cp(k), del: true}}, true) }
func (d *SimDB) Close() error              { return nil }
func (d *SimDB) Print() error              { return nil }
func (d *SimDB) Stats() map[string]string  { return nil }

func (d *SimDB) Iterator(start, end []byte) (dbm.Iterator, error) {
	if (start != nil && len(start) == 0) || (end != nil && len(end) == 0) {
		return nil, errors.New("key empty")
	}
	it := &simIter{it: d.live.Copy().Iter(), start: start, end: end}
	if start == nil {
		it.ok = it.it.First()
	} else {
		it.ok = it.it.Seek(kv{k: start})
	}
	return it, nil
}

func (d *SimDB) ReverseIterator(start, end []byte) (dbm.Iterator, error) {
	if (start != nil && len(start) == 0) || (end != nil && len(end) == 0) {
		return nil, errors.New("key empty")
	}
	it := &simIter{it: d.live.Copy().Iter(), start: start, end: end, rev: true}
	if end == nil {
		it.ok = it.it.Last()
	} else if it.it.Seek(kv{k: end}) {
		it.ok = it.it.Prev()
	} else {
		it.ok = it.it.Last()
	}
	return it, nil
}

type simIter struct {
	it         btree.IterG[kv]
	start, end []byte
	rev, ok    bool
}

func (i *simIter) Domain() ([]byte, []byte) { return i.start, i.end }
func (i *simIter) Valid() bool {
	if !i.ok {
		return false
	}
	k := i.it.Item().k
	if i.rev {
		return i.start == nil || bytes.Compare(k, i.start) >= 0
	}
	return i.end == nil || bytes.Compare(k, i.end) < 0
}
func (i *simIter) must() {
	if !i.Valid() {
		panic("iterator is invalid")
	}
}
func (i *simIter) Next() {
	i.must()
	if i.rev {
		i.ok = i.it.Prev()
	} else {
		i.ok = i.it.Next()
	}
}
func (i *simIter) Key() []byte   { i.must(); return cp(i.it.Item().k) }
func (i *simIter) Value() []byte { i.must(); return cp(i.it.Item().v) }
func (i *simIter) Error() error  { return nil }
func (i *simIter) Close() error  { i.it.Release(); i.ok = false; return nil }

func (d *SimDB) NewBatch() dbm.Batch              { return &simBatch{db: d} }
func (d *SimDB) NewBatchWithSize(n int) dbm.Batch { return &simBatch{db: d} }

type simBatch struct {
	db   *SimDB
	ops  []dbOp
	size int
	done bool
}

var errBatchClosed = errors.New("batch has been written or closed")

func (b *simBatch) Set(k, v []byte) error {
	if len(k) == 0 || v == nil {
		return errors.New("bad key or value")
	}
	if b.done {
		return errBatchClosed
	}
	b.size += len(k) + len(v)
	b.ops = append(b.ops, dbOp{k: cp(k), v: cp(v)})
	return nil
}
func (b *simBatch) Delete(k []byte) error {
	if len(k) == 0 {
		return errors.New("key empty")
	}
	if b.done {
		return errBatchClosed
	}
	b.size += len(k)
	b.ops = append(b.ops, dbOp{k: cp(k), del: true})
	return nil
}
func (b *simBatch) Write() error     { return b.commit(false) }
func (b *simBatch) WriteSync() error { return b.commit(true) }
func (b *simBatch) commit(sync bool) error {
	if b.done {
		return errBatchClosed
	}
	err := b.db.write(b.ops, sync)
	if err != nil {
		return err
	}
	b.done = true
	return nil
}
func (b *simBatch) Close() error { b.done = true; return nil }
func (b *simBatch) GetByteSize() (int, error) {
	if b.done {
		return 0, errBatchClosed
	}
	return b.size, nil
}
