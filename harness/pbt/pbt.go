// Package pbt drives the property checks: it runs rapid with a seed and a
// number of cases that depend only on VERIF_SEED, VERIF_TIER and the shard,
// owns every source of randomness (generators and crypto/rand.Reader), and
// records what was actually generated.
package pbt

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"
)

type stats struct {
	Evaluations int            `json:"evaluations"`
	Tests       map[string]int `json:"tests"`
	Labels      map[string]int `json:"labels"`
	Skipped     map[string]int `json:"skipped"`
	Samples     []any          `json:"samples"`
	Hashes      []string       `json:"hashes"`
	Rule        string         `json:"rule"`
}

var (
	mu      sync.Mutex
	st      = stats{Tests: map[string]int{}, Labels: map[string]int{}, Skipped: map[string]int{}}
	seen    = map[[12]byte]bool{}
	perTest = map[string]int{}
	frozen  bool // set once a case has failed: shrinking is not counted
)

func envInt(name string, def int) int {
	if s := os.Getenv(name); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			return n
		}
	}
	return def
}

// Seed, Tier and shard of this process.
var (
	Seed     = envInt("VERIF_SEED", 1)
	Thorough = os.Getenv("VERIF_TIER") == "thorough"
	shard    = envInt("VERIF_SHARD", 0)
	shards   = envInt("VERIF_SHARDS", 1)
)

// Main runs the tests of a property and writes the statistics.
func Main(m *testing.M, rule string) {
	flag.Parse()
	st.Rule = rule
	debug.SetMaxStack(256 << 20)
	code := m.Run()
	if f := os.Getenv("VERIF_STATS"); f != "" {
		for h := range seen {
			st.Hashes = append(st.Hashes, fmt.Sprintf("%x", h[:]))
		}
		sort.Strings(st.Hashes)
		b, err := json.Marshal(&st)
		if err == nil {
			err = os.WriteFile(f, b, 0o644)
		}
		if err != nil {
			Broken("cannot write statistics: %v", err)
		}
	}
	os.Exit(code)
}

// Broken ends the process because the harness itself, not the code under test, failed.
func Broken(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR: "+format+"\n", args...)
	os.Exit(3)
}

// C is one generated case.
type C struct {
	*rapid.T
	test  string
	label string
}

// Check decides prop on quick (or thorough) generated cases, over all shards.
func Check(t *testing.T, quick, thorough int, prop func(c *C)) {
	t.Helper()
	n := quick
	if Thorough {
		n = thorough
	}
	// Cases are dealt to the shards; small counts rotate over them.
	h := sha256.Sum256([]byte(t.Name()))
	off := int(h[0]) % shards
	mine := n / shards
	if (shard+off)%shards < n%shards {
		mine++
	}
	replay := flag.Lookup("rapid.failfile").Value.String() != ""
	if mine == 0 && !replay {
		t.Skip("no cases for this shard")
	}
	if mine == 0 {
		mine = 1
	}
	set("rapid.checks", strconv.Itoa(mine))
	if os.Getenv("VERIF_RAPID_SEED") != "" {
		set("rapid.seed", os.Getenv("VERIF_RAPID_SEED"))
	} else {
		hh := sha256.Sum256([]byte(fmt.Sprintf("%d/%d/%s", Seed, shard, t.Name())))
		s := binary.LittleEndian.Uint64(hh[:]) >> 2
		if s == 0 {
			s = 1
		}
		set("rapid.seed", strconv.FormatUint(s, 10))
	}
	if f := flag.Lookup("rapid.shrinktime"); f.Value.String() == f.DefValue {
		set("rapid.shrinktime", "15s")
	}
	mu.Lock()
	frozen = false
	mu.Unlock()
	saved := rand.Reader
	defer func() { rand.Reader = saved }()
	rapid.Check(t, func(rt *rapid.T) {
		c := &C{T: rt, test: t.Name()}
		// A library call that asks for randomness gets it from the case, never
		// from the system.
		rand.Reader = saved
		c.Tape(SeedOf(c, "tape"))
		defer func() {
			if r := recover(); r != nil {
				mu.Lock()
				frozen = true
				mu.Unlock()
				panic(r)
			}
			if rt.Failed() {
				mu.Lock()
				frozen = true
				mu.Unlock()
			}
		}()
		prop(c)
	})
}

func set(name, value string) {
	if err := flag.Set(name, value); err != nil {
		Broken("flag %s: %v", name, err)
	}
}

// Eval records one evaluation of the property. key identifies the evaluated
// input; an empty key means that it is trivial by the check's rule.
func (c *C) Eval(key string) {
	mu.Lock()
	defer mu.Unlock()
	if frozen {
		return
	}
	st.Evaluations++
	st.Tests[c.test]++
	if key != "" {
		h := sha256.Sum256([]byte(c.test + "\x00" + key))
		seen[[12]byte(h[:12])] = true
	}
}

// Label counts a class of cases.
func (c *C) Label(l string) {
	mu.Lock()
	defer mu.Unlock()
	if !frozen {
		st.Labels[l]++
	}
}

// Undecided records that part of a case could not be decided (for instance because an
// internal field that the case needs does not exist any more). Nothing is claimed.
func (c *C) Undecided(format string, args ...any) {
	mu.Lock()
	st.Skipped[fmt.Sprintf(format, args...)]++
	mu.Unlock()
}

// Sample keeps up to 3 cases of every test for the evidence.
func (c *C) Sample(v map[string]any) {
	mu.Lock()
	defer mu.Unlock()
	if frozen || perTest[c.test] >= 3 {
		return
	}
	perTest[c.test]++
	v["test"] = c.test
	st.Samples = append(st.Samples, v)
}

// Tape makes crypto/rand.Reader a deterministic stream and returns it.
func (c *C) Tape(seed uint64) *Tape {
	t := NewTape(seed)
	rand.Reader = t
	return t
}

// Use installs r as crypto/rand.Reader.
func (c *C) Use(r io.Reader) { rand.Reader = r }

// Tape is a deterministic source of randomness. Reads are recorded; Over
// overrides single reads, FailAt makes one read fail.
type Tape struct {
	mu     sync.Mutex
	stream cipher.Stream
	Reads  int            // number of reads so far
	Bytes  [][]byte       // contents of every read
	Over   map[int][]byte // replacement of the i-th read (used when the length agrees)
	Flip   map[int]int    // flip bit number v of the i-th read
	FailAt int            // read that fails, -1 for none
	Short  bool           // the failing read returns fewer bytes first
	Sticky bool           // all later reads fail as well
	EOF    bool           // fail with io.EOF
	Chunk  int            // a read returns at most so many bytes, 0 for no limit
	failed bool
}

// ErrEntropy is returned by failing reads.
var ErrEntropy = errors.New("verif: no entropy")

// NewTape returns the stream of a seed.
func NewTape(seed uint64) *Tape {
	var s [8]byte
	binary.LittleEndian.PutUint64(s[:], seed)
	k := sha256.Sum256(append([]byte("verif tape"), s[:]...))
	b, err := aes.NewCipher(k[:])
	if err != nil {
		Broken("aes: %v", err)
	}
	return &Tape{stream: cipher.NewCTR(b, make([]byte, 16)), FailAt: -1}
}

func (t *Tape) Read(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	i := t.Reads
	t.Reads++
	if t.Chunk > 0 && len(p) > t.Chunk {
		p = p[:t.Chunk] // allowed by io.Reader, with no error
	}
	if t.failed && t.Sticky || t.FailAt >= 0 && i == t.FailAt {
		t.failed = true
		n := 0
		if t.Short && len(p) > 1 {
			n = len(p) / 2
			for j := range p[:n] {
				p[j] = 0
			}
			t.stream.XORKeyStream(p[:n], p[:n])
		}
		if t.EOF {
			return n, io.EOF
		}
		return n, ErrEntropy
	}
	for j := range p {
		p[j] = 0
	}
	t.stream.XORKeyStream(p, p)
	if o, ok := t.Over[i]; ok && len(o) == len(p) {
		copy(p, o)
	}
	if b, ok := t.Flip[i]; ok && len(p) > 0 {
		b %= len(p) * 8
		p[b/8] ^= 1 << (b % 8)
	}
	t.Bytes = append(t.Bytes, bytes.Clone(p))
	return len(p), nil
}

// Width returns the number of bytes that were read.
func (t *Tape) Width() int {
	t.mu.Lock()
	defer t.mu.Unlock()
	n := 0
	for _, b := range t.Bytes {
		n += len(b)
	}
	return n
}

// Clip shortens long text for samples.
func Clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Guard runs f and returns the panic value, or nil.
func Guard(f func()) (p any, stack string) {
	defer func() {
		if r := recover(); r != nil {
			if fmt.Sprintf("%T", r) == "rapid.stopTest" || strings.HasPrefix(fmt.Sprintf("%T", r), "rapid.") {
				panic(r)
			}
			p, stack = r, string(debug.Stack())
		}
	}()
	f()
	return nil, ""
}
