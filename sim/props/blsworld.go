package props

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io"
	"math/big"
	"sort"
	"strings"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
	"golang.org/x/crypto/sha3"

	"verif.local/sim/engine"
)

// The BLS world keeps, next to every real key and signature, its formal value: a linear
// combination of (weights, key, message). All library operations act linearly on formal
// values, so the model predicts every encoding up to a table and every verdict exactly.

type form map[string]int

func (f form) add(g form, c int) form {
	o := form{}
	for k, v := range f {
		o[k] = v
	}
	for k, v := range g {
		o[k] += c * v
		if o[k] == 0 {
			delete(o, k)
		}
	}
	return o
}

func (f form) scale(c int) form { return form{}.add(f, c) }

// a term is weights|key|message
func term(ws []string, key, msg string) string {
	return strings.Join(ws, ",") + "|" + key + "|" + msg
}

func splitTerm(t string) (ws []string, key, msg string) {
	p := strings.Split(t, "|")
	if p[0] != "" {
		ws = strings.Split(p[0], ",")
	}
	return ws, p[1], p[2]
}

func (f form) weigh(tag string) form {
	o := form{}
	for t, c := range f {
		ws, k, m := splitTerm(t)
		ws = append(append([]string(nil), ws...), tag)
		sort.Strings(ws)
		o[term(ws, k, m)] += c
	}
	return o
}

func (f form) on(msg string) form {
	o := form{}
	for t, c := range f {
		ws, k, _ := splitTerm(t)
		o[term(ws, k, msg)] += c
	}
	return o
}

func (f form) keys() []string {
	l := make([]string, 0, len(f))
	for k := range f {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func (f form) String() string {
	s := ""
	for _, k := range f.keys() {
		s += fmt.Sprintf("%+d*%s ", f[k], k)
	}
	return strings.TrimSpace(s)
}

func (f form) opaque() bool {
	for k := range f {
		if strings.Contains(k, "opaque") {
			return true
		}
	}
	return false
}

func tagOf(b []byte) string {
	h := sha256.Sum256(b)
	return "h" + hex.EncodeToString(h[:5])
}

const (
	kPK = iota
	kApk
	kSig
	kUSig
)

var kNames = []string{"PublicKey", "Apk", "Signature", "UnsafeSignature"}

type bobj struct {
	id   int
	node *Node
	kind int
	pk   *bls.PublicKey
	apk  *bls.Apk
	sig  *bls.Signature
	usig *bls.UnsafeSignature
	f    form
	dead bool
}

func (o *bobj) String() string { return fmt.Sprintf("%s#%d[%s]", kNames[o.kind], o.id, o.f) }

func (o *bobj) marshal() []byte {
	switch o.kind {
	case kPK:
		return o.pk.Marshal()
	case kApk:
		return o.apk.Marshal()
	case kSig:
		return o.sig.Marshal()
	}
	return o.usig.Marshal()
}

func (o *bobj) g2() bool { return o.kind <= kApk }

func (o *bobj) key() *bls.PublicKey {
	if o.kind == kApk {
		return o.apk.PublicKey
	}
	return o.pk
}

// blob is a serialized object.
type blob struct {
	g2    bool
	enc   int // 0 plain, 1 compressed, 2 text
	data  []byte
	f     form
	whole bool // undamaged
}

type bworld struct {
	r     *Run
	nodes []*Node
	net   *Net
	keys  []uint64 // seeds
	odd   []byte   // what the source of the first key starts with
	sk    map[*Node]map[int]*bls.SecretKey
	msgs  [][]byte
	objs  []*bobj
	disk  map[*Node][]*blob
	tab   [2]map[string][]byte // form -> bytes
	inv   [2]map[string]form   // bytes -> form
	next  int
	emph  string
	hot   *bobj
	bans  map[*bobj]int // 1 read, 2 written in the current group
	sched *engine.Sched
}

func msgName(i int) string { return fmt.Sprintf("m%d", i) }
func keyName(i int) string { return fmt.Sprintf("k%d", i) }

func side(g2 bool) int {
	if g2 {
		return 1
	}
	return 0
}

func newBWorld(r *Run, emph string) *bworld {
	w := &bworld{r: r, emph: emph, sk: map[*Node]map[int]*bls.SecretKey{}, disk: map[*Node][]*blob{}, bans: map[*bobj]int{}}
	for i := range w.tab {
		w.tab[i] = map[string][]byte{}
		w.inv[i] = map[string]form{}
	}
	w.learn(false, form{}, new(bn256.G1).ScalarBaseMult(new(big.Int)).Marshal(), "identity")
	w.learn(true, form{}, new(bn256.G2).ScalarBaseMult(new(big.Int)).Marshal(), "identity")
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		w.nodes = append(w.nodes, r.NewNode())
	}
	clocks(r, w.nodes...)
	w.net = newNet(r)
	nk := 2 + r.Intn(4)
	for i := 0; i < nk; i++ {
		w.keys = append(w.keys, r.Seed()<<4|uint64(i+1))
	}
	if r.Bool(1, 4) { // an unusual secret key
		k := new(big.Int)
		switch r.Intn(5) {
		case 0:
			k.SetInt64(1)
		case 1:
			k.SetInt64(2 + int64(r.Intn(300)))
		case 2:
			k.Sub(bn256.Order, big.NewInt(1+int64(r.Intn(3))))
		case 3:
			k.Lsh(big.NewInt(1), uint(8+r.Intn(247)))
		case 4: // a few bytes of it only
			k.SetBytes(engine.Expand(r.Seed(), 1+r.Intn(16)))
			k.Lsh(k, uint(8*r.Intn(16)))
			k.SetBit(k, r.Intn(100), 1)
		}
		w.odd = k.FillBytes(make([]byte, 32))
		r.Note("unusual-secret-key")
	}
	nm := 2 + r.Intn(4) + 5*r.Weighted(3, 1)
	seen := map[string]bool{}
	long := r.Bool(1, 6) // long messages
	for len(w.msgs) < nm {
		var m []byte
		if len(w.msgs) > 0 && r.Bool(1, 2) {
			m = near(r, w.msgs[r.Intn(len(w.msgs))])
		} else if long {
			m = engine.Expand(r.Seed()|1, 1<<uint(12+r.Intn(5))+r.Intn(1200))
		} else {
			m = message(r, 3000)
		}
		if seen[string(m)] {
			m = append(m, byte(len(w.msgs)), 1)
		}
		if seen[string(m)] {
			continue
		}
		seen[string(m)] = true
		w.msgs = append(w.msgs, spareBytes(r, m))
	}
	for _, n := range w.nodes {
		w.boot(n)
	}
	return w
}

// boot gives a node its keys (from the seeds it keeps) and public keys of all.
func (w *bworld) boot(n *Node) {
	r := w.r
	w.sk[n] = map[int]*bls.SecretKey{}
	var pks []*bls.PublicKey
	r.MustDo(n, nil, "GenKeyPair", func() {
		for i, s := range w.keys {
			pk, sk, err := bls.GenKeyPair(w.source(i, s))
			if err != nil {
				r.Fail("keygen", "GenKeyPair failed: %v", err)
			}
			w.sk[n][i] = sk
			pks = append(pks, pk)
		}
	})
	for i, pk := range pks {
		w.adopt(&bobj{node: n, kind: kPK, pk: pk, f: form{term(nil, keyName(i), ""): 1}})
	}
	w.settle()
}

// source is where key i comes from.
func (w *bworld) source(i int, seed uint64) io.Reader {
	if i == 0 && w.odd != nil {
		return io.MultiReader(bytes.NewReader(w.odd), engine.NewStream(seed, "key"))
	}
	return engine.NewStream(seed, "key")
}

func (w *bworld) adopt(o *bobj) *bobj {
	w.next++
	o.id = w.next
	w.objs = append(w.objs, o)
	return o
}

// learn puts bytes and their formal value into the table.
func (w *bworld) learn(g2 bool, f form, b []byte, what string) {
	r := w.r
	s := side(g2)
	k := f.String()
	r.Checks++
	if old, ok := w.tab[s][k]; ok {
		if !bytes.Equal(old, b) {
			r.Fail("value-differs", "%s: has bytes %s but the value %s was %s", what, hx(b), k, hx(old))
		}
		return
	}
	if g, ok := w.inv[s][string(b)]; ok {
		r.Fail("value-collides", "%s: value %s has the bytes of %s", what, k, g)
	}
	w.tab[s][k] = append([]byte(nil), b...)
	w.inv[s][string(b)] = f
}

// settle checks that every object has the value the model predicts.
func (w *bworld) settle() {
	for _, n := range w.nodes {
		var l []*bobj
		for _, o := range w.objs {
			if o.node == n && !o.dead {
				l = append(l, o)
			}
		}
		bs := make([][]byte, len(l))
		w.r.MustDo(n, nil, "Marshal", func() {
			for i, o := range l {
				bs[i] = o.marshal()
			}
		})
		for i, o := range l {
			w.learn(o.g2(), o.f, bs[i], o.String())
		}
	}
}

// refDecode is the canonical reading of bytes, by the group library alone.
func (w *bworld) refDecode(g2 bool, comp bool, b []byte) (form, []byte, error) {
	var canon, neg []byte
	if g2 {
		p := new(bn256.G2)
		if _, err := p.Unmarshal(append([]byte(nil), b...)); err != nil {
			return nil, nil, err
		}
		canon = p.Marshal()
		neg = negG2(canon)
	} else {
		p := new(bn256.G1)
		var err error
		if comp {
			p, err = bn256.Decompress(append([]byte(nil), b...))
		} else {
			_, err = p.Unmarshal(append([]byte(nil), b...))
		}
		if err != nil {
			return nil, nil, err
		}
		canon = p.Marshal()
		q := new(bn256.G1)
		if _, err := q.Unmarshal(append([]byte(nil), canon...)); err != nil {
			return nil, nil, err
		}
		neg = new(bn256.G1).Neg(q).Marshal()
	}
	s := side(g2)
	if f, ok := w.inv[s][string(canon)]; ok {
		return f, canon, nil
	}
	if f, ok := w.inv[s][string(neg)]; ok {
		return f.scale(-1), canon, nil
	}
	return form{term(nil, "opaque-"+tagOf(canon), ""): 1}, canon, nil
}

func negG2(b []byte) []byte { return mulG2(b, big.NewInt(-1)) }

// mulG2 scales an encoded point.
func mulG2(b []byte, k *big.Int) []byte {
	p := new(bn256.G2)
	if _, err := p.Unmarshal(append([]byte(nil), b...)); err != nil {
		return nil
	}
	kk := new(big.Int).Mod(k, bn256.Order)
	return new(bn256.G2).ScalarMult(p, kk).Marshal()
}

func addG2(a, b []byte) []byte {
	p, q := new(bn256.G2), new(bn256.G2)
	if _, err := p.Unmarshal(append([]byte(nil), a...)); err != nil {
		return nil
	}
	if _, err := q.Unmarshal(append([]byte(nil), b...)); err != nil {
		return nil
	}
	return new(bn256.G2).Add(p, q).Marshal()
}

func mulG1(b []byte, k *big.Int) []byte {
	p := new(bn256.G1)
	if _, err := p.Unmarshal(append([]byte(nil), b...)); err != nil {
		return nil
	}
	kk := new(big.Int).Mod(k, bn256.Order)
	return new(bn256.G1).ScalarMult(p, kk).Marshal()
}

// pick finds an object of one of the kinds that may be read (or written).
func (w *bworld) pick(n *Node, write bool, kinds ...int) *bobj {
	var l []*bobj
	for _, o := range w.objs {
		if o.node != n || o.dead {
			continue
		}
		if w.bans[o] == 2 || (write && w.bans[o] == 1) {
			continue
		}
		for _, k := range kinds {
			if o.kind == k {
				l = append(l, o)
			}
		}
	}
	if len(l) == 0 {
		return nil
	}
	var o *bobj
	if len(l) > 4 && w.r.Bool(1, 2) { // recent ones
		o = l[len(l)-1-w.r.Intn(4)]
	} else {
		o = l[w.r.Intn(len(l))]
	}
	if write {
		w.bans[o] = 2
	} else if w.bans[o] == 0 {
		w.bans[o] = 1
	}
	return o
}

// keyObj finds the plain public key of signer i on a node.
func (w *bworld) keyObj(n *Node, i int) *bobj {
	name := form{term(nil, keyName(i), ""): 1}.String()
	for _, o := range w.objs {
		if o.node == n && !o.dead && o.kind == kPK && w.bans[o] != 2 && o.f.String() == name {
			if w.bans[o] == 0 {
				w.bans[o] = 1
			}
			return o
		}
	}
	return nil
}

func (w *bworld) spawn(n *Node, name string, fn func(), done func()) {
	r := w.r
	ent := r.Entropy()
	t := w.sched.Spawn(n, name, ent, fn)
	w.sched.PlanSites(t, sitesIn("bls/"))
	t.OnDone = func() {
		if t.Killed {
			return
		}
		taskPanic(r, t, name)
		r.Tracef("node %d %s", n.ID, name)
		done()
	}
}

func (w *bworld) newObj(n *Node, kind int, f form) *bobj {
	return &bobj{node: n, kind: kind, f: f}
}

// makeBlob serializes an object.
func (w *bworld) makeBlob(o *bobj) (*blob, func()) {
	b := &blob{g2: o.g2(), f: o.f, whole: true}
	enc := w.r.Weighted(3, 2, 2)
	if b.g2 && enc == 1 {
		enc = 0
	}
	if !b.g2 && enc == 2 {
		enc = 1
	}
	if !b.g2 && enc == 1 && len(o.f) == 0 {
		enc = 0 // the identity has no compressed form
	}
	b.enc = enc
	return b, func() {
		switch {
		case enc == 1 && o.kind == kSig:
			b.data = o.sig.Compress()
		case enc == 1:
			b.data = o.usig.Compress()
		case enc == 2:
			b.data, _ = o.key().MarshalText()
		default:
			b.data = o.marshal()
		}
	}
}

// damage alters bytes in transit.
func (w *bworld) damage(b *blob) *blob {
	r := w.r
	c := &blob{g2: b.g2, enc: b.enc, data: append([]byte(nil), b.data...)}
	r.Fault("corruption")
	n := len(c.data)
	switch r.Weighted(4, 2, 2, 1, 1, 2, 1) {
	case 0:
		for i, k := 0, 1+r.Intn(3); i < k && n > 0; i++ {
			c.data[r.Intn(n)] ^= byte(1 << uint(r.Intn(8)))
		}
	case 1:
		c.data = c.data[:r.Intn(n+1)]
	case 2:
		c.data = append(c.data, r.Bytes(1+r.Intn(70))...)
	case 3:
		c.data = nil
	case 4:
		c.data = r.Bytes(n)
	case 5: // wrong kind
		o := w.objs[r.Intn(len(w.objs))]
		if !o.dead && w.bans[o] != 2 {
			if x, ok := w.tab[side(o.g2())][o.f.String()]; ok {
				c.data = append([]byte(nil), x...)
			}
		}
	case 6: // first or last byte
		if n > 0 {
			i := 0
			if r.Bool(1, 2) {
				i = n - 1
			}
			c.data[i] = byte(r.Intn(256))
		}
	}
	return c
}

// receive decodes a blob on a node by some route.
func (w *bworld) receive(n *Node, b *blob) {
	r := w.r
	data := append([]byte(nil), b.data...)
	keep := append([]byte(nil), data...)
	var f form
	var canon []byte
	var rerr error
	comp := b.enc == 1
	raw := data
	if b.enc == 2 {
		x, err := textDecode(data)
		rerr, raw = err, x
	}
	if b.whole {
		f, canon = b.f, w.tab[side(b.g2)][b.f.String()]
	}
	ref := func(compressed bool) (form, []byte, error) {
		if b.whole {
			return f, canon, nil
		}
		if rerr != nil {
			return nil, nil, rerr
		}
		return w.refDecode(b.g2, compressed, raw)
	}
	var err error
	outcome := func(what string, f form, rerr error) bool {
		r.Check(bytes.Equal(keep, data), "input-modified", "%s changed the bytes it was given", what)
		if b.whole {
			r.Check(err == nil, "intact-refused", "%s refused an intact encoding of %s: %s", what, f, errStr(err))
			return true
		}
		r.Note("damaged-bytes")
		if rerr != nil {
			r.Check(err != nil, "undecodable-accepted", "%s accepted bytes that encode no point: %s", what, hx(data))
			r.Note("refused-bytes")
			return false
		}
		return err == nil
	}
	if b.g2 {
		text := b.enc == 2
		switch r.Weighted(2, 2, 2) {
		case 0: // new object
			kind := kPK
			if r.Bool(1, 3) {
				kind = kApk
			}
			var pk *bls.PublicKey
			var apk *bls.Apk
			w.spawn(n, "decode "+kNames[kind], func() {
				switch {
				case text && kind == kApk:
					apk = &bls.Apk{PublicKey: &bls.PublicKey{}}
					err = apk.UnmarshalText(data)
				case text:
					pk = &bls.PublicKey{}
					err = pk.UnmarshalText(data)
				case kind == kApk:
					apk, err = bls.UnmarshalApk(data)
				default:
					pk, err = bls.UnmarshalPk(data)
				}
			}, func() {
				f, _, e := ref(false)
				if outcome("decoding a key", f, e) {
					o := w.newObj(n, kind, f)
					o.pk, o.apk = pk, apk
					w.adopt(o)
				}
			})
		case 1: // into an existing one
			o := w.pick(n, true, kPK, kApk)
			if o == nil {
				return
			}
			w.spawn(n, fmt.Sprintf("decode into %s", o), func() {
				if text {
					err = o.key().UnmarshalText(data)
				} else {
					err = o.key().Unmarshal(data)
				}
			}, func() {
				f, _, e := ref(false)
				if outcome(fmt.Sprintf("decoding into %s", o), f, e) {
					o.f = f
				}
			})
		case 2: // aggregate
			if text {
				return
			}
			o := w.pick(n, true, kApk)
			if o == nil {
				return
			}
			w.spawn(n, fmt.Sprintf("AggregateBytes into %s", o), func() { err = o.apk.AggregateBytes(data) }, func() {
				f, c, e := ref(false)
				if outcome(fmt.Sprintf("AggregateBytes into %s", o), f, e) {
					o.f = o.f.add(f.weigh(tagOf(c)), 1)
				}
			})
		}
		return
	}
	switch r.Weighted(2, 2, 2) {
	case 0, 1:
		fresh := r.Bool(1, 2)
		var o *bobj
		kind := kSig + r.Intn(2)
		if !fresh {
			o = w.pick(n, true, kSig, kUSig)
			if o == nil {
				return
			}
			kind = o.kind
		} else {
			o = w.newObj(n, kind, nil)
			o.sig, o.usig = &bls.Signature{}, &bls.UnsafeSignature{}
		}
		useDecompress := comp && (kind == kUSig || r.Bool(1, 2))
		ctor := fresh && kind == kSig && !useDecompress && r.Bool(1, 2)
		// which reading applies
		c := comp && (useDecompress || (kind == kSig && len(data) == 33))
		if !comp {
			c = kind == kSig && len(data) == 33
		}
		if !b.whole && comp && !useDecompress {
			c = kind == kSig && len(data) == 33
		}
		w.spawn(n, fmt.Sprintf("decode into %s", o), func() {
			switch {
			case ctor:
				o.sig, err = bls.UnmarshalSignature(data)
			case useDecompress && kind == kSig:
				err = o.sig.Decompress(data)
			case useDecompress:
				err = o.usig.Decompress(data)
			case kind == kSig:
				err = o.sig.Unmarshal(data)
			default:
				err = o.usig.Unmarshal(data)
			}
		}, func() {
			f, _, e := ref(c)
			if outcome(fmt.Sprintf("decoding into %s", o), f, e) {
				o.f = f
				if fresh {
					w.adopt(o)
				}
			}
		})
	case 2:
		o := w.pick(n, true, kSig)
		if o == nil {
			return
		}
		w.spawn(n, fmt.Sprintf("AggregateBytes into %s", o), func() { err = o.sig.AggregateBytes(data) }, func() {
			f, _, e := ref(len(data) == 33)
			if outcome(fmt.Sprintf("AggregateBytes into %s", o), f, e) {
				o.f = o.f.add(f, 1)
			}
		})
	}
}

// keyFor builds a key with the given formal value on the node by a random route; it must be
// called inside a task. comps are the summands.
type keyPlan struct {
	f     form
	comps []keyComp
	route int
}

type keyComp struct {
	o     *bobj
	raw   bool
	bytes []byte
}

// planKey tries to realize formal key value f from objects on the node.
func (w *bworld) planKey(n *Node, f form) *keyPlan {
	r := w.r
	p := &keyPlan{f: f}
	total := 0
	for _, t := range f.keys() {
		c := f[t]
		ws, k, _ := splitTerm(t)
		if c < 0 || c > 4 || len(ws) > 1 || !strings.HasPrefix(k, "k") {
			return nil
		}
		var i int
		fmt.Sscanf(k, "k%d", &i)
		o := w.keyObj(n, i)
		if o == nil {
			return nil
		}
		kb := w.tab[1][o.f.String()]
		if len(ws) == 1 && ws[0] != tagOf(kb) {
			return nil
		}
		for j := 0; j < c; j++ {
			p.comps = append(p.comps, keyComp{o: o, raw: len(ws) == 0, bytes: append([]byte(nil), kb...)})
			total++
		}
	}
	if total == 0 || total > 12 {
		return nil
	}
	perm := r.Perm(len(p.comps))
	q := make([]keyComp, len(perm))
	for i, j := range perm {
		q[i] = p.comps[j]
	}
	p.comps = q
	p.route = r.Intn(4)
	return p
}

func (p *keyPlan) build() (*bls.PublicKey, error) {
	var acc *bls.PublicKey
	var wapk *bls.Apk
	var pend []*bls.PublicKey
	for i, c := range p.comps {
		if c.raw {
			if acc == nil {
				acc = c.o.pk
			} else {
				acc = acc.Aggregate(c.o.pk)
			}
			continue
		}
		switch {
		case p.route == 0 && wapk == nil:
			wapk = bls.NewApk(c.o.pk)
		case p.route == 0 && i%2 == 0:
			if err := wapk.AggregateBytes(c.bytes); err != nil {
				return nil, err
			}
		case p.route == 0:
			if err := wapk.Aggregate(c.o.pk); err != nil {
				return nil, err
			}
		case p.route == 1:
			pend = append(pend, c.o.pk)
		case p.route == 2: // partial aggregates merged
			a := bls.NewApk(c.o.pk)
			if wapk == nil {
				wapk = a
			} else {
				wapk = &bls.Apk{PublicKey: wapk.PublicKey.Aggregate(a.PublicKey)}
			}
		default: // through its serialization at each step
			if wapk == nil {
				wapk = bls.NewApk(c.o.pk)
			} else if err := wapk.Aggregate(c.o.pk); err != nil {
				return nil, err
			}
			x, err := bls.UnmarshalApk(wapk.Marshal())
			if err != nil {
				return nil, err
			}
			wapk = x.Copy()
		}
	}
	if len(pend) > 0 {
		a, err := bls.AggregateApk(pend)
		if err != nil {
			return nil, err
		}
		wapk = a
	}
	if wapk == nil {
		return acc, nil
	}
	if acc == nil {
		return wapk.PublicKey, nil
	}
	return acc.Aggregate(wapk.PublicKey), nil
}

// verify verifies a signature against keys that match it, or nearly so.
func (w *bworld) verify(n *Node) {
	r := w.r
	o := w.pick(n, false, kSig, kUSig)
	if h := w.hot; h != nil && !h.dead && h.node == n && w.bans[h] != 2 && r.Bool(2, 3) {
		o = h
		if w.bans[o] == 0 {
			w.bans[o] = 1
		}
	}
	if o == nil || len(o.f) == 0 {
		return
	}
	// the keys that belong to it
	per := map[string]form{}
	for t, c := range o.f {
		ws, k, m := splitTerm(t)
		if per[m] == nil {
			per[m] = form{}
		}
		per[m][term(ws, k, "")] += c
	}
	var ms []string
	for m := range per {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	type slot struct {
		msg  int
		f    form
		plan *keyPlan
	}
	var slots []*slot
	for _, m := range ms {
		var i int
		if _, err := fmt.Sscanf(m, "m%d", &i); err != nil {
			return // opaque
		}
		slots = append(slots, &slot{msg: i, f: per[m]})
	}
	perm := r.Perm(len(slots))
	sl := make([]*slot, len(slots))
	for i, j := range perm {
		sl[i] = slots[j]
	}
	slots = sl
	// deviations
	randKey := func() form {
		i := r.Intn(len(w.keys))
		k := w.keyObj(n, i)
		f := form{term(nil, keyName(i), ""): 1}
		if k != nil && o.kind == kSig && r.Bool(3, 4) {
			f = f.weigh(tagOf(w.tab[1][k.f.String()]))
		}
		return f
	}
	dev := "exact"
	single := false
	lenDiff := 0
	if r.Bool(1, 2) {
		switch r.Intn(10) {
		case 0:
			dev = "other-message"
			slots[r.Intn(len(slots))].msg = r.Intn(len(w.msgs))
		case 1:
			dev = "extra-key"
			s := slots[r.Intn(len(slots))]
			s.f = s.f.add(randKey(), 1)
		case 2:
			dev = "missing-key"
			s := slots[r.Intn(len(slots))]
			ks := s.f.keys()
			s.f = s.f.add(form{ks[r.Intn(len(ks))]: 1}, -1)
		case 3:
			dev = "other-key"
			s := slots[r.Intn(len(slots))]
			s.f = randKey()
		case 4:
			dev = "swap"
			if len(slots) > 1 {
				i := r.Intn(len(slots))
				j := (i + 1 + r.Intn(len(slots)-1)) % len(slots)
				slots[i].f, slots[j].f = slots[j].f, slots[i].f
			}
		case 5:
			dev = "extra-slot"
			slots = append(slots, &slot{msg: r.Intn(len(w.msgs)), f: randKey()})
		case 6:
			dev = "missing-slot"
			i := r.Intn(len(slots))
			slots = append(slots[:i:i], slots[i+1:]...)
		case 7:
			dev = "repeated-slot"
			s := slots[r.Intn(len(slots))]
			i := r.Intn(len(slots) + 1)
			d := &slot{msg: s.msg, f: s.f}
			if r.Bool(1, 2) {
				// split one key set over two entries with the same message: the product is right
				ks := s.f.keys()
				part := form{ks[r.Intn(len(ks))]: 1}
				rest := s.f.add(part, -1)
				if len(rest) > 0 {
					d.f = part
					s.f = rest
				}
			}
			slots = append(slots[:i:i], append([]*slot{d}, slots[i:]...)...)
		case 8:
			dev = "length"
			lenDiff = 1 - 2*r.Intn(2)
		case 9:
			dev = "unweighted"
			s := slots[r.Intn(len(slots))]
			g := form{}
			for t, c := range s.f {
				_, k, _ := splitTerm(t)
				g[term(nil, k, "")] += c
			}
			s.f = g
		}
	}
	for _, s := range slots {
		s.plan = w.planKey(n, s.f)
		if s.plan == nil {
			return
		}
	}
	want := form{}
	rep := map[int]bool{}
	distinctMsgs := true
	var msgs [][]byte
	for _, s := range slots {
		want = want.add(s.f.on(msgName(s.msg)), 1)
		if rep[s.msg] {
			distinctMsgs = false
		}
		rep[s.msg] = true
		msgs = append(msgs, w.msgs[s.msg])
	}
	single = len(slots) == 1 && lenDiff == 0 && r.Bool(1, 2)
	route := r.Intn(3)
	allow := r.Bool(1, 3)
	if route == 2 && len(o.f) == 0 {
		route = 0
	}
	accept := want.String() == o.f.String()
	if single {
		if route == 2 {
			route = 0
		}
	} else {
		if !distinctMsgs && !(route == 2 && allow) {
			accept = false
		}
		if len(slots) == 0 {
			accept = false
		}
	}
	if lenDiff > 0 {
		msgs = append(msgs, w.msgs[r.Intn(len(w.msgs))])
		accept = false
	}
	if lenDiff < 0 && len(msgs) > 0 {
		msgs = msgs[:len(msgs)-1]
		accept = false
	}
	var err, berr error
	desc := fmt.Sprintf("verify %s (%s, single=%v route=%d) against %v", o, dev, single, route, want)
	wire := w.tab[0][o.f.String()]
	w.spawn(n, desc, func() {
		var ks []*bls.PublicKey
		for _, s := range slots {
			k, e := s.plan.build()
			if e != nil {
				berr = e
				return
			}
			ks = append(ks, k)
		}
		sig, usig := o.sig, o.usig
		if o.kind == kSig && (route == 1) {
			usig = &bls.UnsafeSignature{}
			berr = usig.Unmarshal(append([]byte(nil), wire...))
		}
		if o.kind == kUSig && route == 0 {
			sig, berr = bls.UnmarshalSignature(append([]byte(nil), wire...))
		}
		if berr != nil {
			return
		}
		var apks []*bls.Apk
		for _, k := range ks {
			apks = append(apks, &bls.Apk{PublicKey: k})
		}
		switch {
		case single && route == 0:
			err = bls.Verify(apks[0], msgs[0], sig)
		case single:
			err = bls.VerifyUnsafe(ks[0], msgs[0], usig)
		case route == 0:
			err = bls.VerifyBatch(apks, msgs, sig)
		case route == 1:
			err = bls.VerifyUnsafeBatch(ks, msgs, usig)
		default:
			var g []*bn256.G2
			for _, k := range ks {
				p := new(bn256.G2)
				if _, e := p.Unmarshal(k.Marshal()); e != nil {
					berr = e
					return
				}
				g = append(g, p)
			}
			var c []byte
			if o.kind == kSig {
				c = o.sig.Compress()
			} else {
				c = o.usig.Compress()
			}
			err = bls.VerifyCompressed(g, msgs, c, allow)
		}
	}, func() {
		r.Check(berr == nil, "key-aggregation-failed", "%s: %s", desc, errStr(berr))
		if accept {
			r.Note("accept")
			if len(slots) > 1 {
				r.Note("accept-batch")
			}
			r.Check(err == nil, "genuine-rejected", "%s: rejected although keys, messages and signature match", desc)
		} else {
			r.Note("reject-" + dev)
			r.Check(err != nil, "forgery-accepted", "%s: accepted", desc)
		}
	})
}

// verifyPair verifies a signature against an arbitrary key object.
func (w *bworld) verifyPair(n *Node) {
	r := w.r
	o := w.pick(n, false, kSig, kUSig)
	k := w.pick(n, false, kPK, kApk)
	if o == nil || k == nil || len(k.f) == 0 || k.f.opaque() {
		return
	}
	m := r.Intn(len(w.msgs))
	accept := k.f.on(msgName(m)).String() == o.f.String()
	safe := o.kind == kSig
	var err error
	desc := fmt.Sprintf("verify %s on m%d with %s", o, m, k)
	w.spawn(n, desc, func() {
		if safe {
			a := k.apk
			if a == nil {
				a = &bls.Apk{PublicKey: k.key()}
			}
			err = bls.Verify(a, w.msgs[m], o.sig)
		} else {
			err = bls.VerifyUnsafe(k.key(), w.msgs[m], o.usig)
		}
	}, func() {
		if accept {
			r.Note("accept")
			r.Check(err == nil, "genuine-rejected", "%s: rejected although they match", desc)
		} else {
			r.Note("reject-pair")
			r.Check(err != nil, "forgery-accepted", "%s: accepted", desc)
		}
	})
}

// lifeOp verifies, changes one of the objects involved in place, verifies, changes it
// back and verifies: a verdict belongs to the values, not to the objects.
func (w *bworld) lifeOp(n *Node) {
	r := w.r
	i := r.Intn(len(w.keys))
	j := (i + 1 + r.Intn(len(w.keys)-1)) % len(w.keys)
	m := r.Intn(len(w.msgs))
	m2 := (m + 1 + r.Intn(len(w.msgs)-1)) % len(w.msgs)
	pi, pj := w.tab[1][form{term(nil, keyName(i), ""): 1}.String()], w.tab[1][form{term(nil, keyName(j), ""): 1}.String()]
	buf := spareBytes(r, append([]byte(nil), w.msgs[m]...))
	msg2 := w.msgs[m2]
	what := r.Intn(9)
	if what == 2 && len(buf) == 0 {
		what = 0
	}
	bit := 0
	if len(buf) > 0 {
		bit = r.Intn(8 * len(buf))
	}
	comp := r.Bool(1, 2)
	names := []string{"apk.Aggregate", "sig.Aggregate", "message", "apk.Unmarshal", "batch", "pk.Unmarshal", "usig.Unmarshal", "apk.AggregateBytes", "sig.AggregateBytes"}
	var err error
	var verdicts [3]error
	cp := func(b []byte) []byte { return append([]byte(nil), b...) }
	w.spawn(n, fmt.Sprintf("reuse of objects (%s) k%d k%d m%d m%d", names[what], i, j, m, m2), func() {
		must := func(e error) {
			if e != nil && err == nil {
				err = e
			}
		}
		ski, skj := w.sk[n][i], w.sk[n][j]
		pki, e := bls.UnmarshalPk(cp(pi))
		must(e)
		pkj, e := bls.UnmarshalPk(cp(pj))
		must(e)
		if err != nil {
			return
		}
		switch what {
		case 5, 6:
			us, e := bls.UnsafeSign(ski, buf)
			must(e)
			us2, e := bls.UnsafeSign(skj, buf)
			must(e)
			if err != nil {
				return
			}
			old := us.Marshal()
			verdicts[0] = bls.VerifyUnsafe(pki, buf, us)
			if what == 5 {
				must(pki.Unmarshal(cp(pj)))
			} else if comp {
				must(us.Decompress(us2.Compress()))
			} else {
				must(us.Unmarshal(us2.Marshal()))
			}
			verdicts[1] = bls.VerifyUnsafe(pki, buf, us)
			if what == 5 {
				must(pki.Unmarshal(cp(pi)))
			} else {
				must(us.Unmarshal(old))
			}
			verdicts[2] = bls.VerifyUnsafe(pki, buf, us)
			return
		}
		s1, e := bls.Sign(ski, pki, buf)
		must(e)
		s2, e := bls.Sign(skj, pkj, buf)
		must(e)
		s3, e := bls.Sign(skj, pkj, msg2)
		must(e)
		if err != nil {
			return
		}
		a, b := bls.NewApk(pki), bls.NewApk(pkj)
		check := func() error { return bls.Verify(a, buf, s1) }
		change, undo := func() {}, func() {}
		old, olda, oldc := s1.Marshal(), a.Marshal(), s1.Compress()
		back := func() {
			if comp {
				must(s1.Decompress(oldc))
			} else {
				must(s1.Unmarshal(old))
			}
		}
		switch what {
		case 0:
			change = func() { must(a.Aggregate(pkj)) }
			undo = func() { must(a.Unmarshal(olda)) }
		case 7:
			change = func() { must(a.AggregateBytes(cp(pj))) }
			undo = func() { must(a.Unmarshal(olda)) }
		case 1:
			change = func() { s1.Aggregate(s2) }
			undo = back
		case 8:
			change = func() { must(s1.AggregateBytes(s2.Marshal())) }
			undo = back
		case 2:
			change = func() { buf[bit/8] ^= 1 << uint(bit%8) }
			undo = change
		case 3:
			change = func() { must(a.Unmarshal(b.Marshal())) }
			undo = func() { must(a.Unmarshal(olda)) }
		case 4:
			s1.Aggregate(s3)
			apks, msgs := []*bls.Apk{a, b}, [][]byte{buf, msg2}
			check = func() error { return bls.VerifyBatch(apks, msgs, s1) }
			change = func() { apks[0], apks[1] = apks[1], apks[0] }
			undo = change
		}
		verdicts[0] = check()
		change()
		verdicts[1] = check()
		undo()
		verdicts[2] = check()
	}, func() {
		r.Note("reuse-" + names[what])
		r.Check(err == nil, "operation-failed", "reuse of objects (%s): %s", names[what], errStr(err))
		r.Check(verdicts[0] == nil, "genuine-rejected", "reuse of objects (%s): first verification: %s", names[what], errStr(verdicts[0]))
		r.Check(verdicts[1] != nil, "forgery-accepted", "reuse of objects (%s): still accepted after the change", names[what])
		r.Check(verdicts[2] == nil, "genuine-rejected", "reuse of objects (%s): rejected after the change was undone: %s", names[what], errStr(verdicts[2]))
	})
}

func (w *bworld) signOp(n *Node) {
	r := w.r
	i := r.Intn(len(w.keys))
	m := r.Intn(len(w.msgs))
	if r.Bool(1, 2) {
		m = 0 // concentrate
	}
	base := form{term(nil, keyName(i), msgName(m)): 1}
	if r.Bool(1, 3) {
		o := w.newObj(n, kUSig, base)
		var err error
		w.spawn(n, fmt.Sprintf("UnsafeSign k%d m%d", i, m), func() { o.usig, err = bls.UnsafeSign(w.sk[n][i], w.msgs[m]) }, func() {
			r.Check(err == nil, "sign-failed", "UnsafeSign: %s", errStr(err))
			w.adopt(o)
		})
		return
	}
	pk := w.keyObj(n, i)
	if r.Bool(1, 12) {
		pk = w.pick(n, false, kPK)
	}
	if pk == nil {
		return
	}
	o := w.newObj(n, kSig, base.weigh(tagOf(w.tab[1][pk.f.String()])))
	var err error
	w.spawn(n, fmt.Sprintf("Sign k%d m%d with %s", i, m, pk), func() { o.sig, err = bls.Sign(w.sk[n][i], pk.pk, w.msgs[m]) }, func() {
		r.Check(err == nil, "sign-failed", "Sign: %s", errStr(err))
		w.adopt(o)
	})
}

// batchOp makes one signature over several messages.
func (w *bworld) batchOp(n *Node) {
	r := w.r
	unsafe := r.Bool(1, 2)
	type contrib struct {
		k, m int
		pk   *bobj
	}
	var cs []contrib
	f := form{}
	ms := r.Perm(len(w.msgs))
	ms = ms[:1+r.Intn(len(ms))]
	for _, m := range ms {
		for i, c := 0, 1+r.Intn(3); i < c; i++ {
			k := r.Intn(len(w.keys))
			pk := w.keyObj(n, k)
			if pk == nil {
				return
			}
			cs = append(cs, contrib{k, m, pk})
			g := form{term(nil, keyName(k), msgName(m)): 1}
			if !unsafe {
				g = g.weigh(w.tag(pk))
			}
			f = f.add(g, 1)
		}
	}
	perm := r.Perm(len(cs))
	route := r.Intn(3)
	kind := kSig
	if unsafe {
		kind = kUSig
	}
	o := w.newObj(n, kind, f)
	var err error
	w.spawn(n, fmt.Sprintf("sign a batch of %d messages, %d signatures", len(ms), len(cs)), func() {
		var us []*bls.UnsafeSignature
		for _, j := range perm {
			c := cs[j]
			if unsafe || route == 2 {
				u, e := bls.UnsafeSign(w.sk[n][c.k], w.msgs[c.m])
				if e != nil {
					err = e
					return
				}
				if unsafe {
					us = append(us, u)
					continue
				}
				if o.sig == nil {
					o.sig, err = bls.Sign(w.sk[n][c.k], c.pk.pk, w.msgs[c.m])
				} else {
					err = o.sig.Add(c.pk.pk, u)
				}
				if err != nil {
					return
				}
				continue
			}
			s, e := bls.Sign(w.sk[n][c.k], c.pk.pk, w.msgs[c.m])
			if e != nil {
				err = e
				return
			}
			switch {
			case o.sig == nil:
				o.sig = s
			case route == 1:
				err = o.sig.AggregateBytes(s.Compress())
			default:
				o.sig.Aggregate(s)
			}
			if err != nil {
				return
			}
		}
		if unsafe {
			o.usig, err = bls.UnsafeBatch(us...)
		}
	}, func() {
		r.Check(err == nil, "sign-failed", "signing a batch: %s", errStr(err))
		r.Note("batch")
		w.adopt(o)
		w.hot = o
	})
}

func (w *bworld) tag(o *bobj) string { return tagOf(w.tab[1][o.f.String()]) }

func (w *bworld) aggOp(n *Node) {
	r := w.r
	var err error
	switch r.Weighted(3, 3, 2, 2, 2, 2, 2, 2) {
	case 0: // signature += signature
		o := w.pick(n, true, kSig)
		if o == nil {
			return
		}
		other := o
		if !r.Bool(1, 8) {
			other = w.pick(n, false, kSig)
		}
		if other == nil {
			return
		}
		f := o.f.add(other.f, 1)
		var ret *bls.Signature
		w.spawn(n, fmt.Sprintf("%s.Aggregate(%s)", o, other), func() { ret = o.sig.Aggregate(other.sig) }, func() {
			r.Check(ret == o.sig, "wrong-return", "Aggregate does not return its receiver")
			o.f = f
		})
	case 1: // apk += key
		o := w.pick(n, true, kApk)
		if o == nil {
			return
		}
		k := w.pick(n, false, kPK)
		if k == nil {
			return
		}
		f := o.f.add(k.f.weigh(w.tag(k)), 1)
		if r.Bool(1, 10) {
			f = o.f.add(o.f.weigh(w.tag(o)), 1)
			w.spawn(n, fmt.Sprintf("%s.Aggregate(itself)", o), func() { err = o.apk.Aggregate(o.apk.PublicKey) }, func() {
				r.Check(err == nil, "aggregate-failed", "Apk.Aggregate: %s", errStr(err))
				o.f = f
			})
			return
		}
		w.spawn(n, fmt.Sprintf("%s.Aggregate(%s)", o, k), func() { err = o.apk.Aggregate(k.pk) }, func() {
			r.Check(err == nil, "aggregate-failed", "Apk.Aggregate: %s", errStr(err))
			o.f = f
		})
	case 2: // new apk
		k := w.pick(n, false, kPK, kApk)
		if k == nil {
			return
		}
		o := w.newObj(n, kApk, k.f.weigh(w.tag(k)))
		w.spawn(n, fmt.Sprintf("NewApk(%s)", k), func() { o.apk = bls.NewApk(k.key()) }, func() { w.adopt(o) })
	case 3: // apk of many
		var ks []*bls.PublicKey
		f := form{}
		for i, c := 0, 1+r.Intn(5); i < c; i++ {
			k := w.pick(n, false, kPK)
			if k == nil {
				return
			}
			ks = append(ks, k.pk)
			f = f.add(k.f.weigh(w.tag(k)), 1)
		}
		o := w.newObj(n, kApk, f)
		w.spawn(n, fmt.Sprintf("AggregateApk(%d keys)", len(ks)), func() { o.apk, err = bls.AggregateApk(ks) }, func() {
			r.Check(err == nil && o.apk != nil, "aggregate-failed", "AggregateApk: %s", errStr(err))
			w.adopt(o)
		})
	case 4: // raw sum of keys
		a := w.pick(n, false, kPK, kApk)
		b := w.pick(n, false, kPK, kApk)
		if a == nil || b == nil {
			return
		}
		kind := kPK
		if a.kind == kApk && b.kind == kApk {
			kind = kApk
		}
		o := w.newObj(n, kind, a.f.add(b.f, 1))
		w.spawn(n, fmt.Sprintf("%s.PublicKey.Aggregate(%s)", a, b), func() {
			pk := a.key().Aggregate(b.key())
			if kind == kPK {
				o.pk = pk
			} else {
				o.apk = &bls.Apk{PublicKey: pk}
			}
		}, func() { w.adopt(o) })
	case 5: // signature += weighted unsafe signature
		o := w.pick(n, true, kSig)
		if o == nil {
			return
		}
		k := w.pick(n, false, kPK)
		u := w.pick(n, false, kUSig)
		if k == nil || u == nil {
			return
		}
		f := o.f.add(u.f.weigh(w.tag(k)), 1)
		w.spawn(n, fmt.Sprintf("%s.Add(%s, %s)", o, k, u), func() { err = o.sig.Add(k.pk, u.usig) }, func() {
			r.Check(err == nil, "aggregate-failed", "Add: %s", errStr(err))
			o.f = f
		})
	case 6: // unsafe
		a := w.pick(n, false, kUSig)
		b := w.pick(n, false, kUSig)
		if a == nil || b == nil {
			return
		}
		o := w.newObj(n, kUSig, a.f.add(b.f, 1))
		w.spawn(n, fmt.Sprintf("UnsafeAggregate(%s, %s)", a, b), func() { o.usig = bls.UnsafeAggregate(a.usig, b.usig) }, func() { w.adopt(o) })
	case 7:
		var us []*bls.UnsafeSignature
		f := form{}
		for i, c := 0, 1+r.Intn(4); i < c; i++ {
			u := w.pick(n, false, kUSig)
			if u == nil {
				return
			}
			us = append(us, u.usig)
			f = f.add(u.f, 1)
		}
		o := w.newObj(n, kUSig, f)
		w.spawn(n, fmt.Sprintf("UnsafeBatch(%d)", len(us)), func() { o.usig, err = bls.UnsafeBatch(us...) }, func() {
			r.Check(err == nil && o.usig != nil, "aggregate-failed", "UnsafeBatch: %s", errStr(err))
			w.adopt(o)
		})
	}
}

func (w *bworld) copyOp(n *Node) {
	o := w.pick(n, false, kApk, kSig)
	if o == nil {
		return
	}
	c := w.newObj(n, o.kind, o.f)
	w.spawn(n, fmt.Sprintf("Copy(%s)", o), func() {
		if o.kind == kApk {
			c.apk = o.apk.Copy()
		} else {
			c.sig = o.sig.Copy()
		}
	}, func() { w.adopt(c) })
}

// attackOp makes objects no honest party makes.
func (w *bworld) attackOp(n *Node) {
	r := w.r
	o := w.pick(n, false, kPK, kApk, kSig, kUSig)
	if o == nil || o.f.opaque() {
		return
	}
	b := w.tab[side(o.g2())][o.f.String()]
	var f form
	var x []byte
	switch {
	case o.g2() && r.Bool(1, 2): // rogue key: own key minus a victim's
		k := w.pick(n, false, kPK, kApk)
		if k == nil || k.f.opaque() {
			return
		}
		kb := w.tab[1][k.f.String()]
		x = addG2(b, negG2(kb))
		f = o.f.add(k.f, -1)
	case o.g2():
		c := []int{-1, 2, 3, -2, 0}[r.Intn(5)]
		x = mulG2(b, big.NewInt(int64(c)))
		f = o.f.scale(c)
	default:
		c := []int{-1, 2, 3, -2, 0}[r.Intn(5)]
		x = mulG1(b, big.NewInt(int64(c)))
		f = o.f.scale(c)
	}
	if x == nil {
		return
	}
	r.Note("attacker-object")
	// not learnt from the attacker: the table is filled when the library has decoded it
	bl := &blob{g2: o.g2(), data: x, f: f, whole: true}
	if _, ok := w.tab[side(bl.g2)][f.String()]; !ok {
		w.learn(bl.g2, f, x, "attacker's value")
	}
	w.receive(n, bl)
}

// distribute sends an object to another node or writes it to the disk.
func (w *bworld) distribute(n *Node) {
	r := w.r
	o := w.pick(n, false, kPK, kApk, kSig, kUSig)
	if o == nil {
		return
	}
	b, enc := w.makeBlob(o)
	toDisk := r.Bool(1, 3)
	dst := w.nodes[r.Intn(len(w.nodes))]
	w.spawn(n, fmt.Sprintf("encode %s", o), enc, func() {
		if toDisk {
			w.disk[n] = append(w.disk[n], b)
			return
		}
		w.net.Send(&Msg{From: n.ID, To: dst.ID, Obj: b})
	})
}

func (w *bworld) restart(n *Node) {
	w.r.Restart(n)
	for _, o := range w.objs {
		if o.node == n {
			o.dead = true
		}
	}
	var l []*bobj
	for _, o := range w.objs {
		if !o.dead {
			l = append(l, o)
		}
	}
	w.objs = l
	w.boot(n)
	for i, b := range w.disk[n] {
		if i < 6 {
			w.sched = w.r.NewSolo()
			w.bans = map[*bobj]int{}
			w.receive(n, b)
			w.sched.Run()
			w.sched.Close()
		}
	}
	w.settle()
}

func (w *bworld) run(steps int) {
	r := w.r
	var wt []int
	//                 sign agg copy verify pair attack distribute deliver damage
	switch w.emph {
	case "C04":
		wt = []int{4, 6, 1, 5, 2, 0, 3, 4, 0}
	case "C05":
		wt = []int{5, 5, 1, 6, 4, 3, 2, 2, 1}
	default:
		wt = []int{4, 6, 4, 2, 2, 2, 3, 4, 5}
	}
	for step := 0; step < steps; step++ {
		if r.Bool(1, 40) {
			w.restart(w.nodes[r.Intn(len(w.nodes))])
		}
		if r.Bool(1, 25) {
			w.net.Toggle(r.Intn(len(w.nodes)))
		}
		w.sched = r.NewSched()
		w.bans = map[*bobj]int{}
		crash := r.Bool(1, 40)
		for i, k := 0, 1+r.Weighted(3, 2, 2); i < k; i++ {
			n := w.nodes[r.Intn(len(w.nodes))]
			switch r.Weighted(wt...) {
			case 0:
				if r.Bool(1, 4) {
					w.batchOp(n)
				} else {
					w.signOp(n)
				}
			case 1:
				w.aggOp(n)
			case 2:
				w.copyOp(n)
			case 3:
				w.verify(n)
			case 4:
				if r.Bool(1, 2) {
					w.lifeOp(n)
				} else {
					w.verifyPair(n)
				}
			case 5:
				w.attackOp(n)
			case 6:
				w.distribute(n)
			case 7:
				if m := w.net.Deliver(); m != nil {
					w.receive(w.nodes[m.To], m.Obj.(*blob))
				}
			case 8:
				if o := w.pick(n, false, kPK, kApk, kSig, kUSig); o != nil {
					b := &blob{g2: o.g2(), data: w.tab[side(o.g2())][o.f.String()], f: o.f}
					if b.g2 && r.Bool(1, 2) {
						b.enc, b.data = 2, textEncode(b.data)
					} else if !b.g2 && len(o.f) > 0 && r.Bool(1, 2) {
						b.enc, b.data = 1, compressG1(b.data)
					}
					w.receive(n, w.damage(b))
				}
			}
		}
		if crash && len(w.sched.Live()) > 0 {
			for i, k := 0, 1+r.Intn(20); i < k && w.sched.Step(); i++ {
			}
			w.sched.Close()
			// calls killed on other nodes leave their receivers in an unknown state
			w.drop()
			w.restart(w.nodes[r.Intn(len(w.nodes))])
			continue
		}
		w.sched.Run()
		w.sched.Close()
		w.settle()
		if len(w.objs) > 60 {
			w.trim()
		}
	}
}

// drop discards objects that an interrupted call was writing.
func (w *bworld) drop() {
	var l []*bobj
	for _, o := range w.objs {
		if w.bans[o] != 2 {
			l = append(l, o)
		} else {
			o.dead = true
		}
	}
	w.objs = l
}

func (w *bworld) trim() {
	var l []*bobj
	for i, o := range w.objs {
		if o.kind == kPK && len(o.f) == 1 || i%2 == 0 {
			l = append(l, o)
		} else {
			o.dead = true
		}
	}
	w.objs = l
}

func compressG1(b []byte) []byte {
	p := new(bn256.G1)
	if _, err := p.Unmarshal(append([]byte(nil), b...)); err != nil {
		return nil
	}
	return p.Compress()
}

// dlogForgery is the known weakness of hashing to the curve by multiplying the base.
func (w *bworld) dlogForgery() {
	r := w.r
	n := w.nodes[0]
	var pk *bls.PublicKey
	var sig *bls.Signature
	var err error
	r.MustDo(n, nil, "Sign", func() {
		var sk *bls.SecretKey
		pk, sk, err = bls.GenKeyPair(engine.NewStream(w.keys[0], "key"))
		if err == nil {
			sig, err = bls.Sign(sk, pk, w.msgs[0])
		}
	})
	r.Check(err == nil, "sign-failed", "Sign: %s", errStr(err))
	h := func(m []byte) *big.Int {
		d := sha3.Sum256(m)
		return new(big.Int).SetBytes(d[:])
	}
	inv := new(big.Int).ModInverse(new(big.Int).Mod(h(w.msgs[0]), bn256.Order), bn256.Order)
	if inv == nil {
		return
	}
	k := new(big.Int).Mul(h(w.msgs[1]), inv)
	forged := mulG1(sig.Marshal(), k)
	var verr error
	r.MustDo(n, nil, "Verify", func() {
		s, e := bls.UnmarshalSignature(forged)
		if e != nil {
			verr = e
			return
		}
		verr = bls.Verify(bls.NewApk(pk), w.msgs[1], s)
	})
	if verr == nil {
		r.KnownFinding("dlog-forgery", "a signature on one message, multiplied by H(m2)/H(m1), verifies for another message the signer never signed (bls.h0 maps messages to known multiples of the base point)")
	}
}
