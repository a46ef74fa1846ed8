//pkg: core/shared
package fdoshared

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"hash"
	"math/big"
	"testing"
	"time"
)

// helpers of the concrete searches: keys, signatures and vouchers built without the code under test

type rkey struct {
	ec  *ecdsa.PrivateKey
	rs  *rsa.PrivateKey
	pub FdoPublicKey
}

func rfail(t *testing.T, f string, a ...any) {
	fmt.Printf("REPLAY-FAIL "+f+"\n", a...)
	t.FailNow()
}

// rno runs f and reports a panic as a failing input.
func rno(t *testing.T, what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			rfail(t, "%s panics: %v", what, r)
		}
	}()
	f()
}

func rnewKey(kind string) *rkey {
	k := &rkey{}
	var p any
	switch kind {
	case "p256":
		k.ec, _ = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		k.pub.PkType = SECP256R1
		p = &k.ec.PublicKey
	case "p384":
		k.ec, _ = ecdsa.GenerateKey(elliptic.P384(), rand.Reader)
		k.pub.PkType = SECP384R1
		p = &k.ec.PublicKey
	case "rsa2048":
		k.rs, _ = rsa.GenerateKey(rand.Reader, 2048)
		k.pub.PkType = RSA2048RESTR
		p = &k.rs.PublicKey
	case "rsa3072":
		k.rs, _ = rsa.GenerateKey(rand.Reader, 3072)
		k.pub.PkType = RSAPKCS
		p = &k.rs.PublicKey
	}
	k.pub.PkEnc = X509
	k.pub.PkBody, _ = x509.MarshalPKIXPublicKey(p)
	return k
}

func (k *rkey) public() any {
	if k.ec != nil {
		return &k.ec.PublicKey
	}
	return &k.rs.PublicKey
}
func (k *rkey) signer() crypto.Signer {
	if k.ec != nil {
		return k.ec
	}
	return k.rs
}

func rcbor(v any) []byte {
	b, err := CborCust.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

// sign makes a COSE Sign1 signature over exactly these bytes.
func (k *rkey) sign(payload []byte) CoseSignature {
	alg := -7
	prot := rcbor(map[int]int{1: alg})
	tbs := rcbor([]any{"Signature1", prot, []byte{}, payload})
	return CoseSignature{Protected: prot, Payload: payload, Signature: k.raw(tbs)}
}
func (k *rkey) raw(tbs []byte) []byte {
	d2, d3 := sha256.Sum256(tbs), sha512.Sum384(tbs)
	if k.ec != nil {
		n := (k.ec.Params().BitSize + 7) / 8
		d := d2[:]
		if n == 48 {
			d = d3[:]
		}
		r, s, _ := ecdsa.Sign(rand.Reader, k.ec, d)
		return append(r.FillBytes(make([]byte, n)), s.FillBytes(make([]byte, n))...)
	}
	if k.rs.N.BitLen() == 2048 {
		sig, _ := rsa.SignPKCS1v15(rand.Reader, k.rs, crypto.SHA256, d2[:])
		return sig
	}
	sig, _ := rsa.SignPKCS1v15(rand.Reader, k.rs, crypto.SHA384, d3[:])
	return sig
}

func rhash(t HashType, data []byte) HashOrHmac {
	if t == HASH_SHA384 {
		d := sha512.Sum384(data)
		return HashOrHmac{Type: t, Hash: d[:]}
	}
	d := sha256.Sum256(data)
	return HashOrHmac{Type: t, Hash: d[:]}
}
func rhmac(t HashType, key, data []byte) HashOrHmac {
	f := sha256.New
	if t == HASH_HMAC_SHA384 {
		f = func() hash.Hash { return sha512.New384() }
	}
	m := hmac.New(f, key)
	m.Write(data)
	return HashOrHmac{Type: t, Hash: m.Sum(nil)}
}

// rchain: leaf, (intermediate,) root certificates for the key.
func rchain(leaf *rkey, rootIsCA, signedByRoot bool) []X509CertificateBytes {
	root := rnewKey("p256")
	other := rnewKey("p256")
	rt := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "root"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour * 1000), IsCA: rootIsCA, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	rb, err := x509.CreateCertificate(rand.Reader, rt, rt, root.public(), root.signer())
	if err != nil {
		panic(err)
	}
	lt := &x509.Certificate{SerialNumber: big.NewInt(2), Subject: pkix.Name{CommonName: "device"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour * 1000)}
	sk := root
	if !signedByRoot {
		sk = other
	}
	lb, err := x509.CreateCertificate(rand.Reader, lt, rt, leaf.public(), sk.signer())
	if err != nil {
		panic(err)
	}
	return []X509CertificateBytes{lb, rb}
}

type rvoucher struct {
	ov    OwnershipVoucher
	hdr   OwnershipVoucherHeader
	owner []*rkey // manufacturer first
	dev   *rkey
	ht    HashType
}

// rmake builds a correct voucher with n entries.
func rmake(n int, ht HashType, kinds ...string) *rvoucher {
	v := &rvoucher{ht: ht}
	for i := 0; i <= n; i++ {
		v.owner = append(v.owner, rnewKey(kinds[i%len(kinds)]))
	}
	v.dev = rnewKey("p256")
	chain := rchain(v.dev, true, true)
	var all []byte
	for _, c := range chain {
		all = append(all, c...)
	}
	ch := rhash(ht, all)
	var guid FdoGuid
	rand.Read(guid[:])
	v.hdr = OwnershipVoucherHeader{OVHProtVer: ProtVer101, OVGuid: guid, OVRvInfo: RendezvousInfo{RendezvousDirective{NewRendezvousInstr(RVDevPort, 80)}}, OVDeviceInfo: "device", OVPublicKey: v.owner[0].pub, OVDevCertChainHash: &ch}
	v.ov = OwnershipVoucher{OVProtVer: ProtVer101, OVDevCertChain: &chain}
	v.reseal(n)
	return v
}

// reseal re-encodes the header and rebuilds n entries over it.
func (v *rvoucher) reseal(n int) {
	v.ov.OVHeaderTag = rcbor(v.hdr)
	v.ov.OVHeaderHMac = rhmac(HASH_HMAC_SHA256, []byte("devicesecret"), v.ov.OVHeaderTag)
	v.ov.OVEntryArray = nil
	for i := 0; i < n; i++ {
		v.ov.OVEntryArray = append(v.ov.OVEntryArray, v.entry(i, v.prev(i), v.owner[i], v.owner[i+1]))
	}
}
func (v *rvoucher) prev(i int) []byte {
	if i == 0 {
		return append(append([]byte{}, v.ov.OVHeaderTag...), rcbor(v.ov.OVHeaderHMac)...)
	}
	return rcbor(v.ov.OVEntryArray[i-1])
}
func (v *rvoucher) entry(i int, prev []byte, by, to *rkey) CoseSignature {
	p := OVEntryPayload{OVEHashPrevEntry: rhash(v.ht, prev), OVEHashHdrInfo: rhash(v.ht, append(append([]byte{}, v.hdr.OVGuid[:]...), []byte(v.hdr.OVDeviceInfo)...)), OVEPubKey: to.pub}
	return by.sign(rcbor(p))
}
