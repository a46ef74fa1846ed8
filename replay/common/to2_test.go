//pkg: core/do/to2
package to2

import (
	"bytes"
	"context"
	"net/http"
	"net/http/httptest"
	"strings"

	"github.com/dgraph-io/badger/v4"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/do/dbs"

	. "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"hash"
	"math/big"
	"testing"
	"time"
)

// helpers of the concrete searches: keys, signatures and vouchers built without the code under test

type rkey struct {
	ec  *ecdsa.PrivateKey
	rs  *rsa.PrivateKey
	pub FdoPublicKey
}

func rfail(t *testing.T, f string, a ...any) {
	fmt.Printf("REPLAY-FAIL "+f+"\n", a...)
	t.FailNow()
}

// rno runs f and reports a panic as a failing input.
func rno(t *testing.T, what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			rfail(t, "%s panics: %v", what, r)
		}
	}()
	f()
}

func rnewKey(kind string) *rkey {
	k := &rkey{}
	var p any
	switch kind {
	case "p256":
		k.ec, _ = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		k.pub.PkType = SECP256R1
		p = &k.ec.PublicKey
	case "p384":
		k.ec, _ = ecdsa.GenerateKey(elliptic.P384(), rand.Reader)
		k.pub.PkType = SECP384R1
		p = &k.ec.PublicKey
	case "rsa2048":
		k.rs, _ = rsa.GenerateKey(rand.Reader, 2048)
		k.pub.PkType = RSA2048RESTR
		p = &k.rs.PublicKey
	case "rsa3072":
		k.rs, _ = rsa.GenerateKey(rand.Reader, 3072)
		k.pub.PkType = RSAPKCS
		p = &k.rs.PublicKey
	}
	k.pub.PkEnc = X509
	k.pub.PkBody, _ = x509.MarshalPKIXPublicKey(p)
	return k
}

func (k *rkey) public() any {
	if k.ec != nil {
		return &k.ec.PublicKey
	}
	return &k.rs.PublicKey
}
func (k *rkey) signer() crypto.Signer {
	if k.ec != nil {
		return k.ec
	}
	return k.rs
}

func rcbor(v any) []byte {
	b, err := CborCust.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

// sign makes a COSE Sign1 signature over exactly these bytes.
func (k *rkey) sign(payload []byte) CoseSignature {
	alg := -7
	prot := rcbor(map[int]int{1: alg})
	tbs := rcbor([]any{"Signature1", prot, []byte{}, payload})
	return CoseSignature{Protected: prot, Payload: payload, Signature: k.raw(tbs)}
}
func (k *rkey) raw(tbs []byte) []byte {
	d2, d3 := sha256.Sum256(tbs), sha512.Sum384(tbs)
	if k.ec != nil {
		n := (k.ec.Params().BitSize + 7) / 8
		d := d2[:]
		if n == 48 {
			d = d3[:]
		}
		r, s, _ := ecdsa.Sign(rand.Reader, k.ec, d)
		return append(r.FillBytes(make([]byte, n)), s.FillBytes(make([]byte, n))...)
	}
	if k.rs.N.BitLen() == 2048 {
		sig, _ := rsa.SignPKCS1v15(rand.Reader, k.rs, crypto.SHA256, d2[:])
		return sig
	}
	sig, _ := rsa.SignPKCS1v15(rand.Reader, k.rs, crypto.SHA384, d3[:])
	return sig
}

func rhash(t HashType, data []byte) HashOrHmac {
	if t == HASH_SHA384 {
		d := sha512.Sum384(data)
		return HashOrHmac{Type: t, Hash: d[:]}
	}
	d := sha256.Sum256(data)
	return HashOrHmac{Type: t, Hash: d[:]}
}
func rhmac(t HashType, key, data []byte) HashOrHmac {
	f := sha256.New
	if t == HASH_HMAC_SHA384 {
		f = func() hash.Hash { return sha512.New384() }
	}
	m := hmac.New(f, key)
	m.Write(data)
	return HashOrHmac{Type: t, Hash: m.Sum(nil)}
}

// rchain: leaf, (intermediate,) root certificates for the key.
func rchain(leaf *rkey, rootIsCA, signedByRoot bool) []X509CertificateBytes {
	root := rnewKey("p256")
	other := rnewKey("p256")
	rt := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "root"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour * 1000), IsCA: rootIsCA, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	rb, err := x509.CreateCertificate(rand.Reader, rt, rt, root.public(), root.signer())
	if err != nil {
		panic(err)
	}
	lt := &x509.Certificate{SerialNumber: big.NewInt(2), Subject: pkix.Name{CommonName: "device"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour * 1000)}
	sk := root
	if !signedByRoot {
		sk = other
	}
	lb, err := x509.CreateCertificate(rand.Reader, lt, rt, leaf.public(), sk.signer())
	if err != nil {
		panic(err)
	}
	return []X509CertificateBytes{lb, rb}
}

type rvoucher struct {
	ov    OwnershipVoucher
	hdr   OwnershipVoucherHeader
	owner []*rkey // manufacturer first
	dev   *rkey
	ht    HashType
}

// rmake builds a correct voucher with n entries.
func rmake(n int, ht HashType, kinds ...string) *rvoucher {
	v := &rvoucher{ht: ht}
	for i := 0; i <= n; i++ {
		v.owner = append(v.owner, rnewKey(kinds[i%len(kinds)]))
	}
	v.dev = rnewKey("p256")
	chain := rchain(v.dev, true, true)
	var all []byte
	for _, c := range chain {
		all = append(all, c...)
	}
	ch := rhash(ht, all)
	var guid FdoGuid
	rand.Read(guid[:])
	v.hdr = OwnershipVoucherHeader{OVHProtVer: ProtVer101, OVGuid: guid, OVRvInfo: RendezvousInfo{RendezvousDirective{NewRendezvousInstr(RVDevPort, 80)}}, OVDeviceInfo: "device", OVPublicKey: v.owner[0].pub, OVDevCertChainHash: &ch}
	v.ov = OwnershipVoucher{OVProtVer: ProtVer101, OVDevCertChain: &chain}
	v.reseal(n)
	return v
}

// reseal re-encodes the header and rebuilds n entries over it.
func (v *rvoucher) reseal(n int) {
	v.ov.OVHeaderTag = rcbor(v.hdr)
	v.ov.OVHeaderHMac = rhmac(HASH_HMAC_SHA256, []byte("devicesecret"), v.ov.OVHeaderTag)
	v.ov.OVEntryArray = nil
	for i := 0; i < n; i++ {
		v.ov.OVEntryArray = append(v.ov.OVEntryArray, v.entry(i, v.prev(i), v.owner[i], v.owner[i+1]))
	}
}
func (v *rvoucher) prev(i int) []byte {
	if i == 0 {
		return append(append([]byte{}, v.ov.OVHeaderTag...), rcbor(v.ov.OVHeaderHMac)...)
	}
	return rcbor(v.ov.OVEntryArray[i-1])
}
func (v *rvoucher) entry(i int, prev []byte, by, to *rkey) CoseSignature {
	p := OVEntryPayload{OVEHashPrevEntry: rhash(v.ht, prev), OVEHashHdrInfo: rhash(v.ht, append(append([]byte{}, v.hdr.OVGuid[:]...), []byte(v.hdr.OVDeviceInfo)...)), OVEPubKey: to.pub}
	return by.sign(rcbor(p))
}

// tserver: the owner service over a store in memory.
type tserver struct {
	db *badger.DB
	h  DoTo2
}

func tserve(t *testing.T, tokens string) *tserver {
	db, err := badger.Open(badger.DefaultOptions("").WithInMemory(true).WithLogger(nil))
	if err != nil {
		t.Skip(err)
	}
	ctx := context.WithValue(context.Background(), CFG_ENV_INTEROP_ENABLED, tokens != "")
	ctx = context.WithValue(ctx, CFG_ENV_INTEROP_DO_TOKEN_MAPPING, tokens)
	return &tserver{db: db, h: NewDoTo2(db, ctx)}
}

// tvoucher: a correct voucher with n entries, stored with its owner's key.
func (s *tserver) tvoucher(t *testing.T, n int) *rvoucher {
	v := rmake(n, HASH_SHA256, "p256")
	s.tstore(t, v)
	return v
}
func (s *tserver) tstore(t *testing.T, v *rvoucher) {
	der, _ := x509.MarshalPKCS8PrivateKey(v.owner[len(v.owner)-1].ec)
	if err := dbs.NewVoucherDB(s.db).Save(VoucherDBEntry{Voucher: v.ov, SgType: StSECP256R1, PrivateKeyX509: der}); err != nil {
		t.Skip(err)
	}
}

// tpost sends one message; the answer is the status, the bearer token and the body.
func tpost(t *testing.T, h func(http.ResponseWriter, *http.Request), token string, body []byte) (int, string, []byte) {
	r := httptest.NewRequest("POST", "/", bytes.NewReader(body))
	r.Header.Set("Content-Type", "application/cbor")
	if token != "" {
		r.Header.Set("Authorization", "Bearer "+token)
	}
	w := httptest.NewRecorder()
	rno(t, fmt.Sprintf("handling a request with token %q and body %x", token, body), func() { h(w, r) })
	return w.Code, strings.TrimPrefix(w.Header().Get("Authorization"), "Bearer "), w.Body.Bytes()
}

// tdev: the device's side of one session.
type tdev struct {
	s      *tserver
	v      *rvoucher
	suite  CipherSuiteName
	tok    string
	nonce  FdoNonce // NonceTO2ProveDv as issued
	setup  FdoNonce // NonceTO2SetupDv as sent
	xa     []byte
	kex    *KeXParams
	key    SessionKeyInfo
	hello  HelloDevice60
	hello0 []byte
}

func (s *tserver) tdevice(v *rvoucher, suite CipherSuiteName) *tdev {
	return &tdev{s: s, v: v, suite: suite}
}

// m60 sends the hello; true if it was accepted.
func (d *tdev) m60(t *testing.T) bool {
	d.hello = HelloDevice60{MaxDeviceMessageSize: 1300, Guid: d.v.hdr.OVGuid, NonceTO2ProveOV: NewFdoNonce(), KexSuiteName: KEX_ECDH256, CipherSuiteName: d.suite, EASigInfo: SigInfo{SgType: StSECP256R1, Info: []byte{}}}
	d.hello0 = rcbor(d.hello)
	c, tok, b := tpost(t, d.s.h.HelloDevice60, "", d.hello0)
	if c != 200 {
		return false
	}
	d.tok = tok
	var cs CoseSignature
	var p TO2ProveOVHdrPayload
	if CborCust.Unmarshal(b, &cs) != nil || CborCust.Unmarshal(cs.Payload, &p) != nil || cs.Unprotected.CUPHNonce == nil {
		rfail(t, "the answer to the hello of %x does not decode: %x", d.v.hdr.OVGuid, b)
	}
	own := d.v.owner[len(d.v.owner)-1]
	if VerifyCoseSignature(cs, own.pub) != nil {
		rfail(t, "the answer to the hello is not signed by the owner: %x", b)
	}
	if p.NonceTO2ProveOV != d.hello.NonceTO2ProveOV || !bytes.Equal(p.OVHeader, d.v.ov.OVHeaderTag) || int(p.NumOVEntries) != len(d.v.ov.OVEntryArray) || !bytes.Equal(p.HMac.Hash, d.v.ov.OVHeaderHMac.Hash) || p.EBSigInfo.SgType != d.hello.EASigInfo.SgType || !bytes.Equal(p.HelloDeviceHash.Hash, rhash(HASH_SHA256, d.hello0).Hash) {
		rfail(t, "the answer to the hello %x does not match it and the voucher: %x", d.hello0, b)
	}
	d.nonce, d.xa = *cs.Unprotected.CUPHNonce, p.XAKeyExchange
	return true
}
func (d *tdev) m62(t *testing.T, i int) bool {
	c, _, b := tpost(t, d.s.h.GetOVNextEntry62, d.tok, rcbor(GetOVNextEntry62{GetOVNextEntry: uint8(i)}))
	if c != 200 {
		return false
	}
	var e OVNextEntry63
	if CborCust.Unmarshal(b, &e) != nil || int(e.OVEntryNum) != i || i >= len(d.v.ov.OVEntryArray) || !bytes.Equal(rcbor(e.OVEntry), rcbor(d.v.ov.OVEntryArray[i])) {
		rfail(t, "asked for entry %d, got %x", i, b)
	}
	return true
}

// proof builds the device proof: payload nonce, signing key, setup nonce present.
func (d *tdev) proof(nonce FdoNonce, by *rkey, withSetup bool) []byte {
	d.kex, _ = GenerateXABKeyExchange(KEX_ECDH256, &FdoPublicKey{})
	p := by.sign(rcbor(EATPayloadBase{EatNonce: nonce, EatFDO: TO2ProveDevicePayload{XBKeyExchange: d.kex.XAKeyExchange}}))
	d.setup = NewFdoNonce()
	if withSetup {
		n := d.setup
		p.Unprotected.EUPHNonce = &n
	}
	return rcbor(p)
}
func (d *tdev) m64raw(t *testing.T, body []byte) (bool, []byte) {
	c, _, b := tpost(t, d.s.h.ProveDevice64, d.tok, body)
	return c == 200, b
}

// m64 sends a correct proof.
func (d *tdev) m64(t *testing.T) bool {
	if d.xa == nil { // no session of this service: any keys
		d.xa = make([]byte, 86)
	}
	body := d.proof(d.nonce, d.v.dev, true)
	ok, b := d.m64raw(t, body)
	if !ok {
		return false
	}
	k, err := DeriveSessionKey(*d.kex, d.xa, true, nil)
	if err != nil {
		rfail(t, "cannot derive the session keys: %v", err)
	}
	d.key = *k
	var cs CoseSignature
	var p TO2SetupDevicePayload
	plain, err := RemoveEncryptionWrapping(b, d.key, d.suite)
	if err != nil || CborCust.Unmarshal(plain, &cs) != nil || CborCust.Unmarshal(cs.Payload, &p) != nil {
		rfail(t, "the answer to the device proof %x is not a setup message under the session keys: %x (%v)", body, b, err)
	}
	if VerifyCoseSignature(cs, d.v.owner[len(d.v.owner)-1].pub) != nil || p.NonceTO2SetupDv != d.setup {
		rfail(t, "the setup message %x does not verify or does not echo the setup nonce %x", plain, d.setup)
	}
	return true
}

// sealed sends a message under the session keys; the answer is decoded into a.
func (d *tdev) sealed(t *testing.T, h func(http.ResponseWriter, *http.Request), m, a any) bool {
	key := d.key
	if key.ShSe == nil {
		key.ShSe = make([]byte, 64)
	}
	body, err := AddEncryptionWrapping(rcbor(m), key, d.suite)
	if err != nil {
		t.Skip(err)
	}
	c, _, b := tpost(t, h, d.tok, body)
	if c != 200 {
		return false
	}
	plain, err := RemoveEncryptionWrapping(b, key, d.suite)
	if err != nil || CborCust.Unmarshal(plain, a) != nil {
		rfail(t, "the answer to %x is not a message under the session keys: %x", rcbor(m), b)
	}
	return true
}
func (d *tdev) m66(t *testing.T) bool {
	var a OwnerServiceInfoReady67
	return d.sealed(t, d.s.h.DeviceServiceInfoReady66, DeviceServiceInfoReady66{}, &a)
}
func (d *tdev) m68(t *testing.T, more bool, l []ServiceInfoKV) (bool, OwnerServiceInfo69) {
	var a OwnerServiceInfo69
	ok := d.sealed(t, d.s.h.DeviceServiceInfo68, DeviceServiceInfo68{IsMoreServiceInfo: more, ServiceInfo: l}, &a)
	return ok, a
}
func (d *tdev) m70(t *testing.T, n FdoNonce) bool {
	var a Done271
	ok := d.sealed(t, d.s.h.Done70, Done70{NonceTO2ProveDv: n}, &a)
	if ok && a.NonceTO2SetupDv != d.setup {
		rfail(t, "the final message carries nonce %x, not the setup nonce %x", a.NonceTO2SetupDv, d.setup)
	}
	return ok
}

// tsims: the mandatory items.
func tsims() []ServiceInfoKV {
	return []ServiceInfoKV{
		{ServiceInfoKey: SIM_DEVMOD_ACTIVE, ServiceInfoVal: rcbor(true)},
		{ServiceInfoKey: SIM_DEVMOD_OS, ServiceInfoVal: rcbor("os")},
		{ServiceInfoKey: SIM_DEVMOD_ARCH, ServiceInfoVal: rcbor("arch")},
		{ServiceInfoKey: SIM_DEVMOD_VERSION, ServiceInfoVal: rcbor("1")},
		{ServiceInfoKey: SIM_DEVMOD_DEVICE, ServiceInfoVal: rcbor("dev")},
		{ServiceInfoKey: SIM_DEVMOD_SEP, ServiceInfoVal: rcbor(";")},
		{ServiceInfoKey: SIM_DEVMOD_BIN, ServiceInfoVal: rcbor("bin")},
		{ServiceInfoKey: SIM_DEVMOD_NUMMODULES, ServiceInfoVal: rcbor(uint(1))},
		{ServiceInfoKey: SIM_DEVMOD_MODULES, ServiceInfoVal: rcbor([]any{1, 1, "x"})},
	}
}

// tsession: the stored session.
func (d *tdev) tsession() *dbs.SessionEntry {
	e, err := dbs.NewSessionDB(d.s.db).GetSessionEntry([]byte(d.tok))
	if err != nil {
		return nil
	}
	return e
}
