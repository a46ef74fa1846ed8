//pkg: core/rv
package rv

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	"github.com/dgraph-io/badger/v4"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
)

func r11fail(t *testing.T, f string, a ...any) {
	fmt.Printf("REPLAY-FAIL "+f+"\n", a...)
	t.FailNow()
}

func r11no(t *testing.T, what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			r11fail(t, "%s panics: %v", what, r)
		}
	}()
	f()
}

func r11db(t *testing.T) *badger.DB {
	db, err := badger.Open(badger.DefaultOptions("").WithInMemory(true).WithLogger(nil))
	if err != nil {
		t.Skip(err)
	}
	return db
}

// r11all is the whole store: key to value and remaining life (0: never expires).
func r11all(db *badger.DB) map[string][2]any {
	m := map[string][2]any{}
	db.View(func(txn *badger.Txn) error {
		it := txn.NewIterator(badger.DefaultIteratorOptions)
		defer it.Close()
		for it.Rewind(); it.Valid(); it.Next() {
			v, _ := it.Item().ValueCopy(nil)
			var left time.Duration
			if it.Item().ExpiresAt() != 0 {
				left = time.Until(time.Unix(int64(it.Item().ExpiresAt()), 0))
			}
			m[string(it.Item().KeyCopy(nil))] = [2]any{v, left}
		}
		return nil
	})
	return m
}

// r11key: exactly the keys given are new or changed, and key k has value v and life ttl.
func r11key(t *testing.T, what string, before, after map[string][2]any, k string, v []byte, ttl time.Duration, others ...string) {
	e, ok := after[k]
	if !ok {
		r11fail(t, "%s: nothing stored under %q", what, k)
	}
	if v != nil && !bytes.Equal(e[0].([]byte), v) {
		r11fail(t, "%s: stored %x, want %x", what, e[0], v)
	}
	left := e[1].(time.Duration)
	if (ttl == 0) != (left == 0) || ttl != 0 && (left > ttl+2*time.Second || left < ttl-20*time.Second) {
		r11fail(t, "%s: record under %q lives %v, want %v", what, k, left, ttl)
	}
	allowed := map[string]bool{k: true}
	for _, o := range others {
		allowed[o] = true
	}
	for o, oe := range after {
		if be, ok := before[o]; !allowed[o] && (!ok || !bytes.Equal(be[0].([]byte), oe[0].([]byte))) {
			r11fail(t, "%s: also wrote %q", what, o)
		}
	}
	for o := range before {
		if _, ok := after[o]; !ok && !allowed[o] {
			r11fail(t, "%s: removed %q", what, o)
		}
	}
}

func r11gone(t *testing.T, what string, before, after map[string][2]any, ks ...string) {
	gone := map[string]bool{}
	for _, k := range ks {
		gone[k] = true
		if _, ok := after[k]; ok {
			r11fail(t, "%s: %q is still there", what, k)
		}
	}
	for o := range before {
		if _, ok := after[o]; !ok && !gone[o] {
			r11fail(t, "%s: removed %q", what, o)
		}
	}
}

func TestReplayC11(t *testing.T) {
	db := r11db(t)
	defer db.Close()
	h := NewSessionDB(db)
	var ids [][]byte
	for i := 0; i < 4; i++ {
		s := SessionEntry{Protocol: fdoshared.To0, Guid: fdoshared.FdoGuid{byte(i)}}
		b := r11all(db)
		id, err := h.NewSessionEntry(s)
		if err != nil {
			r11fail(t, "NewSessionEntry: %v", err)
		}
		want, _ := fdoshared.CborCust.Marshal(s)
		r11key(t, "NewSessionEntry", b, r11all(db), "session-"+string(id), want, 10*time.Minute)
		ids = append(ids, id)
	}
	for i, id := range ids {
		g, err := h.GetSessionEntry(id)
		if err != nil || g == nil || g.Guid[0] != byte(i) {
			r11fail(t, "GetSessionEntry of session %d: %v %v", i, g, err)
		}
		g.Guid[1] += 10
		b := r11all(db)
		if err := h.UpdateSessionEntry(id, *g); err != nil {
			r11fail(t, "UpdateSessionEntry: %v", err)
		}
		want, _ := fdoshared.CborCust.Marshal(*g)
		r11key(t, "UpdateSessionEntry", b, r11all(db), "session-"+string(id), want, 10*time.Minute)
	}
	for _, bad := range [][]byte{nil, {}, []byte("x"), append([]byte{}, ids[0][:35]...), append(append([]byte{}, ids[0]...), '0')} {
		r11no(t, "GetSessionEntry", func() {
			if g, err := h.GetSessionEntry(bad); err == nil || g != nil {
				r11fail(t, "GetSessionEntry of unknown %q: %v %v", bad, g, err)
			}
		})
	}
	o := NewOwnerSignDB(db)
	for i, ttl := range []uint32{60, 3600, 86400, 30 * 86400} {
		guid := fdoshared.FdoGuid{byte(i), 200, 255, byte(i)}
		w := fdoshared.OwnerSign22{To0d: []byte{byte(i), 1, 2}}
		want, _ := fdoshared.CborCust.Marshal(w)
		b := r11all(db)
		if err := o.Save(guid, w, ttl); err != nil {
			r11fail(t, "OwnerSignDB.Save: %v", err)
		}
		r11key(t, "OwnerSignDB.Save", b, r11all(db), "to1osstorage-"+string(guid[:]), want, time.Duration(ttl)*time.Second)
		if g, err := o.Get(guid); err != nil || g == nil || !bytes.Equal(g.To0d, w.To0d) {
			r11fail(t, "OwnerSignDB.Get: %v %v", g, err)
		}
		if g, err := o.Get(fdoshared.FdoGuid{byte(i), 200}); err == nil || g != nil {
			r11fail(t, "OwnerSignDB.Get of an unknown device: %v %v", g, err)
		}
	}
}
