package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha512"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/harness/drv"
	"verif/harness/ref"
	"verif/harness/scen"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
)

// The command-line tools are run in a scratch directory; what they print and write is recorded
// and judged by Records.tla.

func init() { commands["cli"] = cliCmd }

type result struct {
	out   string
	crash string
}

var hexTok = regexp.MustCompile(`[0-9a-fA-F]{64,}`)

// toks are the 64-digit tokens; longer ones that are multiples are split
func toks(s string) []string {
	out := []string{}
	for _, t := range hexTok.FindAllString(s, -1) {
		if len(t)%64 != 0 {
			continue
		}
		for ; len(t) > 0; t = t[64:] {
			out = append(out, strings.ToLower(t[:64]))
		}
	}
	return out
}

func run(dir, bin string, args ...string) result {
	ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	r := result{out: o.String() + e.String()}
	all := r.out
	if strings.Contains(all, "goroutine ") && strings.Contains(all, "panic:") || strings.Contains(all, "fatal error:") {
		r.crash = "crashed: " + tail(e.String(), 1500)
	}
	if ctx.Err() != nil {
		r.crash = "did not return"
	} else if x, ok := err.(*exec.ExitError); ok && r.crash == "" {
		if x.ExitCode() < 0 {
			r.crash = "killed: " + x.String()
		}
	} else if err != nil && r.crash == "" {
		r.crash = "not run: " + err.Error()
	}
	return r
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

type keyfile struct {
	Secrets map[party.ID]*eddsa.SecretShare
	Shares  *eddsa.Public
}

func claims(out string) bool { return strings.Contains(strings.ToLower(out), "success") }

// cli <out> <seed> <keygen binary> <signer binary> <scratch dir> <runs> <t:n> ...
func cliCmd(args []string) error {
	f, err := os.Create(args[0])
	if err != nil {
		return err
	}
	defer f.Close()
	seed := atoi(args[1])
	kg, sg, scratch, runs := args[2], args[3], args[4], atoi(args[5])
	h := sha512.Sum512([]byte(fmt.Sprint("cli", seed)))
	c := &recs{w: bufio.NewWriter(f), r: rand.New(rand.NewSource(int64(h[0]) | int64(h[1])<<8 | int64(h[2])<<16))}
	defer c.w.Flush()
	drv.Hang = 300 * time.Second
	for _, a := range args[6:] {
		var t, n int
		fmt.Sscanf(a, "%d:%d", &t, &n)
		c.cliKeygen(kg, sg, scratch, strconv.Itoa(t), strconv.Itoa(n), t, n, 2)
	}
	for i := 0; i < runs; i++ {
		n := 2 + c.r.Intn(7)
		t := 1 + c.r.Intn(n-1)
		c.cliKeygen(kg, sg, scratch, strconv.Itoa(t), strconv.Itoa(n), t, n, 4)
	}
	bad := [][]string{{}, {"1"}, {"1", "2", "3"}, {"0", "3"}, {"-1", "3"}, {"3", "3"}, {"4", "3"}, {"1", "1"}, {"1", "0"}, {"1", "-2"}, {"2", "101"}, {"100", "101"}, {"1", "65537"},
		{"1", "65538"}, {"65537", "65539"}, {"-65535", "3"}, {"1", "4294967298"}, {"99999999999999999999", "3"}, {"1", "99999999999999999999"}, {"a", "3"}, {"1", "b"},
		{"", "3"}, {"1", ""}, {"1.5", "3"}, {"1", "3x"}, {"0x1", "3"}, {" 1", "3"}, {"-h", "3"}, {"100", "100"}, {"0", "0"}, {"0", "1"}, {"2", "1"}, {"-2", "-1"}, {"-5", "100"}}
	for _, a := range bad {
		a := a
		c.cliBadKeygen(kg, scratch, a, false)
	}
	c.cliBadKeygen(kg, scratch, []string{"1", "3"}, true)
	c.cliBadSign(kg, sg, scratch)
	return nil
}

func newDir(scratch string) string {
	d, err := ioutil.TempDir(scratch, "cli")
	if err != nil {
		panic(err)
	}
	return d
}

func (c *recs) cliMessage() string {
	r := c.r
	switch r.Intn(10) {
	case 8, 9:
		return c.oddMessage(r.Intn(1000))
	case 0:
		return ""
	case 1:
		return "-"
	case 2:
		return "--help"
	case 3:
		return "two words\nand a line"
	case 4:
		b := make([]byte, r.Intn(300))
		for i := range b {
			b[i] = byte(1 + r.Intn(255))
		}
		return string(b)
	case 5:
		return strings.Repeat("long ", 20000)
	case 6:
		return "%s%d%x \x80\xff"
	}
	return "message"
}

// oddMessage is a message that a careless program might change.
func (c *recs) oddMessage(i int) string {
	odd := []string{"m\n", "m\r\n", "\n", " m", "m ", "\tm\t", "m\n\n", "\xef\xbb\xbfm", "\"m\"", "'m'", "\\n", "$HOME", "@m", "0x6d", "6d6d", "bW1t", "M", "e\u0301", "\u00e9",
		"keygenout.json", "/dev/stdin", ".", "{}", "null", "m\x1a", "\x7f\x80", "a=b", "--", "-m", "m\vm\f", "\u2028", "%0a"}
	return odd[i%len(odd)]
}

// oldKey is what an earlier run may have left in the key file: nothing, a key of many or few parties, or something else.
func (c *recs) oldKey() []byte {
	r := c.r
	switch r.Intn(5) {
	case 0, 1:
		ids := []uint16{}
		for i := 1 + r.Intn(3); len(ids) < 2+r.Intn(20); i++ {
			ids = append(ids, uint16(i))
		}
		k, err := scen.Deal(r, ids, 1)
		if err != nil {
			panic(fmt.Sprintf("taurusgroup/frost-ed25519 refuses the key: %v", err))
		}
		f := keyfile{Secrets: map[party.ID]*eddsa.SecretShare{}, Shares: k.Public}
		for id, s := range k.Shares {
			f.Secrets[party.ID(id)] = s
		}
		b, err := json.Marshal(f)
		if err != nil {
			panic(fmt.Sprintf("taurusgroup/frost-ed25519 does not encode the key: %v", err))
		}
		if r.Intn(2) == 0 {
			b = append(b, bytes.Repeat([]byte("\n"), r.Intn(5000))...)
		}
		return b
	case 2:
		return bytes.Repeat([]byte("junk "), 1+r.Intn(10000))
	}
	return nil
}

// cliKeygen makes a key and signs with it.
func (c *recs) cliKeygen(kg, sg, scratch, ta, na string, t, n, signs int) {
	dir := newDir(scratch)
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "keygenout.json")
	old := c.oldKey()
	if old != nil { // an earlier run left its key file in the directory
		if err := ioutil.WriteFile(file, old, 0644); err != nil {
			panic(err)
		}
	}
	var key keyfile
	c.rec("clikeygen", fields{"valid": true, "args": []string{ta, na}, "t": t, "n": n}, func(m fields) {
		m["file"], m["said"], m["success"] = false, false, false
		m["ids"], m["pubids"], m["secids"], m["pubt"], m["secrets"], m["shares"], m["gk"], m["toks"] = []int{}, []int{}, []int{}, 0, []string{}, []string{}, "", []string{}
		res := run(dir, kg, ta, na)
		if res.crash != "" {
			panic(res.crash)
		}
		m["said"], m["success"], m["toks"] = res.out != "", claims(res.out), toks(res.out)
		name := file
		l, _ := filepath.Glob(filepath.Join(dir, "*"))
		for _, f := range l {
			if b, err := ioutil.ReadFile(f); err == nil && (old == nil || !bytes.Equal(b, old)) {
				name = f
			}
		}
		b, err := ioutil.ReadFile(name)
		if err != nil {
			return
		}
		if err := json.Unmarshal(b, &key); err != nil || key.Shares == nil {
			key = keyfile{}
			return
		}
		file = name
		m["file"] = true
		ids := []int{}
		for id := range key.Secrets {
			ids = append(ids, int(id))
		}
		sort.Ints(ids)
		sid, sec := []int{}, []string{}
		for _, id := range ids {
			s := key.Secrets[party.ID(id)]
			sid = append(sid, int(s.ID))
			sec = append(sec, hexs(s.Secret.Bytes()))
		}
		m["ids"], m["secids"], m["secrets"] = ids, sid, sec
		m["pubids"], m["pubt"], m["shares"], m["gk"] = idInts(key.Shares.PartyIDs), int(key.Shares.Threshold), sharesOf(key.Shares), hexs(drv.PKBytes(key.Shares.GroupKey))
	})
	if key.Shares == nil {
		return
	}
	for i := 0; i < signs; i++ {
		msg := c.cliMessage()
		c.cliSign(dir, sg, file, msg, key)
	}
}

func (c *recs) cliSign(dir, sg, file, msg string, key keyfile) {
	c.rec("clisign", fields{"valid": true, "m": hexs([]byte(msg)), "gk": hexs(drv.PKBytes(key.Shares.GroupKey))}, func(m fields) {
		res := run(dir, sg, file, msg)
		if res.crash != "" {
			panic(res.crash)
		}
		out := res.out
		if i := strings.Index(strings.ToLower(out), "success"); i >= 0 {
			out = out[i:]
		}
		m["said"], m["success"], m["toks"] = res.out != "", claims(res.out), toks(out)
	})
}

func (c *recs) cliBadKeygen(kg, scratch string, a []string, blocked bool) {
	dir := newDir(scratch)
	defer os.RemoveAll(dir)
	if blocked { // the key file cannot be written
		if err := os.Mkdir(filepath.Join(dir, "keygenout.json"), 0755); err != nil {
			panic(err)
		}
	}
	var old []byte
	if name := filepath.Join(dir, "keygenout.json"); !blocked {
		if old = c.oldKey(); old != nil {
			if err := ioutil.WriteFile(name, old, 0644); err != nil {
				panic(err)
			}
		}
	}
	c.rec("clikeygen", fields{"valid": false, "args": a, "blocked": blocked, "old": len(old)}, func(m fields) {
		res := run(dir, kg, a...)
		if res.crash != "" {
			panic(res.crash)
		}
		file := false
		l, _ := filepath.Glob(filepath.Join(dir, "*"))
		for _, f := range l {
			if b, err := ioutil.ReadFile(f); err == nil && (old == nil || !bytes.Equal(b, old)) {
				file = true
			}
		}
		m["file"], m["said"], m["success"] = file, res.out != "", claims(res.out)
	})
}

// cliBadSign runs the signer with wrong arguments and unusable key files.
func (c *recs) cliBadSign(kg, sg, scratch string) {
	r := c.r
	dir := newDir(scratch)
	defer os.RemoveAll(dir)
	mk := func(ids []uint16, t int) (keyfile, *scen.Key) {
		k, err := scen.Deal(r, ids, t)
		if err != nil {
			panic(fmt.Sprintf("taurusgroup/frost-ed25519 refuses the key: %v", err))
		}
		f := keyfile{Secrets: map[party.ID]*eddsa.SecretShare{}, Shares: k.Public}
		for id, s := range k.Shares {
			f.Secrets[party.ID(id)] = s
		}
		return f, k
	}
	write := func(name string, b []byte) string {
		p := filepath.Join(dir, name)
		if err := ioutil.WriteFile(p, b, 0644); err != nil {
			panic(err)
		}
		return p
	}
	enc := func(k interface{}) []byte {
		b, err := json.Marshal(k)
		if err != nil {
			panic(fmt.Sprintf("taurusgroup/frost-ed25519 does not encode the key: %v", err))
		}
		return b
	}
	one := func(what string, args ...string) {
		c.rec("clisign", fields{"valid": false, "what": what, "m": "", "gk": ""}, func(m fields) {
			res := run(dir, sg, args...)
			if res.crash != "" {
				panic(what + ": " + res.crash)
			}
			m["said"], m["success"], m["toks"] = res.out != "", claims(res.out), toks(res.out)
		})
	}
	good, k := mk([]uint16{1, 2, 3}, 1)
	gb := enc(good)
	gf := write("good.json", gb)
	// a key made by the reference implementation is as good
	c.cliSign(dir, sg, gf, c.cliMessage(), good)
	for i := 0; i < 32; i++ {
		c.cliSign(dir, sg, gf, c.oddMessage(i), good)
	}
	one("no arguments")
	one("one argument", gf)
	one("three arguments", gf, "m", "m")
	one("missing file", filepath.Join(dir, "none"), "m")
	one("directory", dir, "m")
	one("empty", write("f", nil), "m")
	for _, s := range []string{"null", "{}", "[]", `""`, "0", `{"Shares":null}`, `{"Secrets":null,"Shares":{}}`, `{"Secrets":{},"Shares":null}`, `{"Secrets":{"1":null}}`,
		`{"Shares":{"t":1,"groupkey":null,"shares":{}}}`} {
		one("json "+s, write("f", []byte(s)), "m")
	}
	for i := 0; i < 8; i++ {
		one("truncated", write("f", gb[:r.Intn(len(gb)-1)]), "m")
	}
	only := func(f keyfile, drop party.ID) keyfile {
		o := keyfile{Secrets: map[party.ID]*eddsa.SecretShare{}, Shares: f.Shares}
		for id, s := range f.Secrets {
			if id != drop {
				o.Secrets[id] = s
			}
		}
		return o
	}
	for id := party.ID(1); id <= 3; id++ {
		one("missing secret", write("f", enc(only(good, id))), "m")
		x := only(good, 0)
		x.Secrets[id] = eddsa.NewSecretShare(id, ref.Rand(r))
		one("wrong secret", write("f", enc(x)), "m")
		x = only(good, 0)
		x.Secrets[id] = nil
		one("null secret", write("f", enc(x)), "m")
		x = only(good, 0)
		x.Secrets[id] = eddsa.NewSecretShare(9, k.Secrets[uint16(id)])
		one("foreign secret", write("f", enc(x)), "m")
		x = only(good, 0)
		x.Secrets[id] = eddsa.NewSecretShare(id%3+1, k.Secrets[uint16(id%3+1)])
		one("doubled secret", write("f", enc(x)), "m")
	}
	one("no secrets", write("f", enc(keyfile{Shares: good.Shares})), "m")
	one("no shares", write("f", enc(keyfile{Secrets: good.Secrets})), "m")
	s := string(gb)
	for _, rep := range [][2]string{{`"t":1`, `"t":3`}, {`"t":1`, `"t":-1`}, {`"t":1`, `"t":65537`}, {`"Shares"`, `"Other"`}, {`"Secrets"`, `"Other"`}, {`"groupkey"`, `"other"`},
		{`"id":1`, `"id":65537`}, {`"id":1`, `"id":-1`}, {`"secret":"`, `"secret":"A`}, {`"groupkey":"`, `"groupkey":"AAAA`}} {
		if b := strings.Replace(s, rep[0], rep[1], 1); b != s {
			one("altered "+rep[0]+" "+rep[1], write("f", []byte(b)), "m")
		}
	}
	other, _ := mk([]uint16{1, 2, 3}, 1)
	one("secrets of another key", write("f", enc(keyfile{Secrets: other.Secrets, Shares: good.Shares})), "m")
}
