//go:build testing
// +build testing

package main

import (
	dbm "github.com/tendermint/tm-db"
)

// died is what a database panics with when the node is to die before writing something.
type died struct{}

// mortalDB is a database that lets only so many writes through, after which the node dies. A batch is written as a whole
// or not at all.
type mortalDB struct {
	dbm.DB
	armed bool
	left  int
	wrote int // since it was armed last
}

func (d *mortalDB) step() {
	if !d.armed {
		return
	}
	if d.left == 0 {
		panic(died{})
	}
	d.left--
	d.wrote++
}

func (d *mortalDB) Set(k, v []byte) error     { d.step(); return d.DB.Set(k, v) }
func (d *mortalDB) SetSync(k, v []byte) error { d.step(); return d.DB.SetSync(k, v) }
func (d *mortalDB) Delete(k []byte) error     { d.step(); return d.DB.Delete(k) }
func (d *mortalDB) DeleteSync(k []byte) error { d.step(); return d.DB.DeleteSync(k) }
func (d *mortalDB) NewBatch() dbm.Batch       { return mortalBatch{d.DB.NewBatch(), d} }

type mortalBatch struct {
	dbm.Batch
	d *mortalDB
}

func (b mortalBatch) Write() error     { b.d.step(); return b.Batch.Write() }
func (b mortalBatch) WriteSync() error { b.d.step(); return b.Batch.WriteSync() }

// dies tells if a function comes to its end with the node dying after so many writes.
func (d *mortalDB) dies(after int, f func()) (yes bool) {
	d.armed, d.left, d.wrote = true, after, 0
	defer func() {
		d.armed = false
		if e := recover(); e != nil {
			if _, ok := e.(died); !ok {
				if ap, is := e.(appPanic); !is || ap.val != (died{}) {
					panic(e)
				}
			}
			yes = true
		}
	}()
	f()
	return
}
