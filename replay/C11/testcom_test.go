//pkg: core/shared/testcom/dbs
package dbs

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	"github.com/dgraph-io/badger/v4"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	listenertestsdeps "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/listener"
	reqtestsdeps "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/request"
)

func r11fail(t *testing.T, f string, a ...any) {
	fmt.Printf("REPLAY-FAIL "+f+"\n", a...)
	t.FailNow()
}

func r11no(t *testing.T, what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			r11fail(t, "%s panics: %v", what, r)
		}
	}()
	f()
}

func r11db(t *testing.T) *badger.DB {
	db, err := badger.Open(badger.DefaultOptions("").WithInMemory(true).WithLogger(nil))
	if err != nil {
		t.Skip(err)
	}
	return db
}

// r11all is the whole store: key to value and remaining life (0: never expires).
func r11all(db *badger.DB) map[string][2]any {
	m := map[string][2]any{}
	db.View(func(txn *badger.Txn) error {
		it := txn.NewIterator(badger.DefaultIteratorOptions)
		defer it.Close()
		for it.Rewind(); it.Valid(); it.Next() {
			v, _ := it.Item().ValueCopy(nil)
			var left time.Duration
			if it.Item().ExpiresAt() != 0 {
				left = time.Until(time.Unix(int64(it.Item().ExpiresAt()), 0))
			}
			m[string(it.Item().KeyCopy(nil))] = [2]any{v, left}
		}
		return nil
	})
	return m
}

// r11key: exactly the keys given are new or changed, and key k has value v and life ttl.
func r11key(t *testing.T, what string, before, after map[string][2]any, k string, v []byte, ttl time.Duration, others ...string) {
	e, ok := after[k]
	if !ok {
		r11fail(t, "%s: nothing stored under %q", what, k)
	}
	if v != nil && !bytes.Equal(e[0].([]byte), v) {
		r11fail(t, "%s: stored %x, want %x", what, e[0], v)
	}
	left := e[1].(time.Duration)
	if (ttl == 0) != (left == 0) || ttl != 0 && (left > ttl+2*time.Second || left < ttl-20*time.Second) {
		r11fail(t, "%s: record under %q lives %v, want %v", what, k, left, ttl)
	}
	allowed := map[string]bool{k: true}
	for _, o := range others {
		allowed[o] = true
	}
	for o, oe := range after {
		if be, ok := before[o]; !allowed[o] && (!ok || !bytes.Equal(be[0].([]byte), oe[0].([]byte))) {
			r11fail(t, "%s: also wrote %q", what, o)
		}
	}
	for o := range before {
		if _, ok := after[o]; !ok && !allowed[o] {
			r11fail(t, "%s: removed %q", what, o)
		}
	}
}

func r11gone(t *testing.T, what string, before, after map[string][2]any, ks ...string) {
	gone := map[string]bool{}
	for _, k := range ks {
		gone[k] = true
		if _, ok := after[k]; ok {
			r11fail(t, "%s: %q is still there", what, k)
		}
	}
	for o := range before {
		if _, ok := after[o]; !ok && !gone[o] {
			r11fail(t, "%s: removed %q", what, o)
		}
	}
}

const r11half = 183 * 24 * time.Hour

func TestReplayC11(t *testing.T) {
	db := r11db(t)
	defer db.Close()
	h := NewListenerTestDB(db)
	var ls []listenertestsdeps.RequestListenerInst
	for i := 0; i < 3; i++ {
		w := listenertestsdeps.RequestListenerInst{Uuid: []byte(fmt.Sprint("id", i)), Guid: fdoshared.FdoGuid{byte(i), 5}}
		ls = append(ls, w)
		want, _ := fdoshared.CborCust.Marshal(w)
		b := r11all(db)
		if err := h.Save(w); err != nil {
			r11fail(t, "ListenerTestDB.Save: %v", err)
		}
		a := r11all(db)
		mk := "lstdb-guid-map-" + string(w.Guid[:])
		r11key(t, "ListenerTestDB.Save", b, a, "lstdb-"+string(w.Uuid), want, r11half, mk)
		r11key(t, "ListenerTestDB.Save mapping", b, a, mk, w.Uuid, 0, "lstdb-"+string(w.Uuid))
	}
	for _, w := range ls {
		g, err := h.Get(w.Uuid)
		g2, err2 := h.GetEntryByFdoGuid(w.Guid)
		if err != nil || g == nil || err2 != nil || g2 == nil || g.Guid != w.Guid || g2.Guid != w.Guid || !bytes.Equal(g2.Uuid, w.Uuid) {
			r11fail(t, "ListenerTestDB.Get / GetEntryByFdoGuid: %v %v %v %v", g, err, g2, err2)
		}
		g.To0.Running = true
		want, _ := fdoshared.CborCust.Marshal(*g)
		b := r11all(db)
		if err := h.Update(g); err != nil {
			r11fail(t, "ListenerTestDB.Update: %v", err)
		}
		r11key(t, "ListenerTestDB.Update", b, r11all(db), "lstdb-"+string(w.Uuid), want, r11half)
		if g, err := h.Get(append([]byte("x"), w.Uuid...)); err == nil || g != nil {
			r11fail(t, "ListenerTestDB.Get of unknown: %v %v", g, err)
		}
		if g, err := h.GetEntryByFdoGuid(fdoshared.FdoGuid{9, 9}); err == nil || g != nil {
			r11fail(t, "GetEntryByFdoGuid of unknown: %v %v", g, err)
		}
	}
	b := r11all(db)
	if err := h.Delete(ls[0].Uuid); err != nil {
		r11fail(t, "ListenerTestDB.Delete: %v", err)
	}
	r11gone(t, "ListenerTestDB.Delete", b, r11all(db), "lstdb-id0", "lstdb-guid-map-"+string(ls[0].Guid[:]))
	q := NewRequestTestDB(db)
	for i := 0; i < 3; i++ {
		w := reqtestsdeps.RequestTestInst{Uuid: []byte(fmt.Sprint("rid", i)), URL: fmt.Sprint("u", i)}
		want, _ := fdoshared.CborCust.Marshal(w)
		b := r11all(db)
		if err := q.Save(w); err != nil {
			r11fail(t, "RequestTestDB.Save: %v", err)
		}
		r11key(t, "RequestTestDB.Save", b, r11all(db), "rvte-"+string(w.Uuid), want, r11half)
		w.InProgress = true
		want, _ = fdoshared.CborCust.Marshal(w)
		b = r11all(db)
		if err := q.Update(w.Uuid, w); err != nil {
			r11fail(t, "RequestTestDB.Update: %v", err)
		}
		r11key(t, "RequestTestDB.Update", b, r11all(db), "rvte-"+string(w.Uuid), want, r11half)
		if g, err := q.Get(w.Uuid); err != nil || g == nil || g.URL != w.URL || !g.InProgress {
			r11fail(t, "RequestTestDB.Get: %v %v", g, err)
		}
		if g, err := q.Get(append([]byte{}, w.Uuid[1:]...)); err == nil || g != nil {
			r11fail(t, "RequestTestDB.Get of unknown: %v %v", g, err)
		}
	}
}
