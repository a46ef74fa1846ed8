//pkg: dbs
package dbs

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	"github.com/dgraph-io/badger/v4"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
)

func r11fail(t *testing.T, f string, a ...any) {
	fmt.Printf("REPLAY-FAIL "+f+"\n", a...)
	t.FailNow()
}

func r11no(t *testing.T, what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			r11fail(t, "%s panics: %v", what, r)
		}
	}()
	f()
}

func r11db(t *testing.T) *badger.DB {
	db, err := badger.Open(badger.DefaultOptions("").WithInMemory(true).WithLogger(nil))
	if err != nil {
		t.Skip(err)
	}
	return db
}

// r11all is the whole store: key to value and remaining life (0: never expires).
func r11all(db *badger.DB) map[string][2]any {
	m := map[string][2]any{}
	db.View(func(txn *badger.Txn) error {
		it := txn.NewIterator(badger.DefaultIteratorOptions)
		defer it.Close()
		for it.Rewind(); it.Valid(); it.Next() {
			v, _ := it.Item().ValueCopy(nil)
			var left time.Duration
			if it.Item().ExpiresAt() != 0 {
				left = time.Until(time.Unix(int64(it.Item().ExpiresAt()), 0))
			}
			m[string(it.Item().KeyCopy(nil))] = [2]any{v, left}
		}
		return nil
	})
	return m
}

// r11key: exactly the keys given are new or changed, and key k has value v and life ttl.
func r11key(t *testing.T, what string, before, after map[string][2]any, k string, v []byte, ttl time.Duration, others ...string) {
	e, ok := after[k]
	if !ok {
		r11fail(t, "%s: nothing stored under %q", what, k)
	}
	if v != nil && !bytes.Equal(e[0].([]byte), v) {
		r11fail(t, "%s: stored %x, want %x", what, e[0], v)
	}
	left := e[1].(time.Duration)
	if (ttl == 0) != (left == 0) || ttl != 0 && (left > ttl+2*time.Second || left < ttl-20*time.Second) {
		r11fail(t, "%s: record under %q lives %v, want %v", what, k, left, ttl)
	}
	allowed := map[string]bool{k: true}
	for _, o := range others {
		allowed[o] = true
	}
	for o, oe := range after {
		if be, ok := before[o]; !allowed[o] && (!ok || !bytes.Equal(be[0].([]byte), oe[0].([]byte))) {
			r11fail(t, "%s: also wrote %q", what, o)
		}
	}
	for o := range before {
		if _, ok := after[o]; !ok && !allowed[o] {
			r11fail(t, "%s: removed %q", what, o)
		}
	}
}

func r11gone(t *testing.T, what string, before, after map[string][2]any, ks ...string) {
	gone := map[string]bool{}
	for _, k := range ks {
		gone[k] = true
		if _, ok := after[k]; ok {
			r11fail(t, "%s: %q is still there", what, k)
		}
	}
	for o := range before {
		if _, ok := after[o]; !ok && !gone[o] {
			r11fail(t, "%s: removed %q", what, o)
		}
	}
}

func TestReplayC11(t *testing.T) {
	db := r11db(t)
	defer db.Close()
	h := NewSessionDB(db)
	var ids [][]byte
	for i := 0; i < 4; i++ {
		s := SessionEntry{Email: fmt.Sprint("u", i), LoggedIn: i%2 == 0}
		b := r11all(db)
		id, err := h.NewSessionEntry(s)
		if err != nil {
			r11fail(t, "NewSessionEntry: %v", err)
		}
		want, _ := fdoshared.CborCust.Marshal(s)
		r11key(t, "NewSessionEntry", b, r11all(db), "session-"+string(id), want, 7*24*time.Hour)
		ids = append(ids, id)
	}
	for i, id := range ids {
		g, err := h.GetSessionEntry(id)
		if err != nil || g == nil || g.Email != fmt.Sprint("u", i) {
			r11fail(t, "GetSessionEntry of session %d: %v %v", i, g, err)
		}
		g.LoggedIn = !g.LoggedIn
		b := r11all(db)
		if err := h.UpdateSessionEntry(id, *g); err != nil {
			r11fail(t, "UpdateSessionEntry: %v", err)
		}
		want, _ := fdoshared.CborCust.Marshal(*g)
		r11key(t, "UpdateSessionEntry", b, r11all(db), "session-"+string(id), want, 7*24*time.Hour)
	}
	for _, bad := range [][]byte{nil, {}, []byte("x"), append([]byte{}, ids[0][:35]...), append(append([]byte{}, ids[0]...), '0')} {
		r11no(t, "GetSessionEntry", func() {
			if g, err := h.GetSessionEntry(bad); err == nil || g != nil {
				r11fail(t, "GetSessionEntry of unknown %q: %v %v", bad, g, err)
			}
		})
	}
	b := r11all(db)
	h.DeleteSessionEntry(ids[0])
	r11gone(t, "DeleteSessionEntry", b, r11all(db), "session-"+string(ids[0]))
	u := NewUserTestDB(db)
	for _, e := range []string{"a@b.c", "A@B.D", "x"} {
		w := UserTestDBEntry{Email: e, Name: e + "n"}
		want, _ := fdoshared.CborCust.Marshal(w)
		b := r11all(db)
		if err := u.Save(w); err != nil {
			r11fail(t, "UserTestDB.Save: %v", err)
		}
		low := string(bytes.ToLower([]byte(e)))
		r11key(t, "UserTestDB.Save", b, r11all(db), "usere-"+low, want, 0)
		for _, q := range []string{e, low, string(bytes.ToUpper([]byte(e)))} {
			if g, err := u.Get(q); err != nil || g == nil || g.Name != e+"n" {
				r11fail(t, "UserTestDB.Get %q: %v %v", q, g, err)
			}
		}
		if g, err := u.Get(e + "x"); err == nil || g != nil {
			r11fail(t, "UserTestDB.Get of an unknown user: %v %v", g, err)
		}
	}
	d := NewDeviceBaseDB(db)
	for i := 0; i < 2; i++ {
		w := fdoshared.WawDeviceCredential{DCGuid: fdoshared.FdoGuid{byte(i), 77}}
		b := r11all(db)
		if err := d.Save(w); err != nil {
			continue
		}
		r11key(t, "DeviceBaseDB.Save", b, r11all(db), "devbasecreds-"+string(w.DCGuid[:]), nil, 0)
		if g, err := d.Get(w.DCGuid); err != nil || g == nil || g.DCGuid != w.DCGuid {
			r11fail(t, "DeviceBaseDB.Get: %v %v", g, err)
		}
	}
	v := NewVerifyDB(db)
	for i := 0; i < 2; i++ {
		b := r11all(db)
		id, err := v.SaveEntry(VerifyEntry{Email: "q"})
		if err != nil {
			continue
		}
		r11key(t, "VerifyDB.SaveEntry", b, r11all(db), "verifydb-"+string(id), nil, 7*24*time.Hour)
		if g, err := v.GetEntry(id); err != nil || g == nil || g.Email != "q" {
			r11fail(t, "VerifyDB.GetEntry: %v %v", g, err)
		}
		if i == 1 {
			b := r11all(db)
			v.DeleteEntry(id)
			r11gone(t, "VerifyDB.DeleteEntry", b, r11all(db), "verifydb-"+string(id))
		}
	}
}
