package main

import (
	"crypto/ed25519"
	"crypto/rand"
	"crypto/sha256"
	"fmt"
	"io"
	"net"
	"strings"
	"testing"

	"golang.org/x/crypto/ssh"
)

type vKeyT struct {
	typ  string
	data []byte
}

func (k vKeyT) Type() string                        { return k.typ }
func (k vKeyT) Marshal() []byte                     { return k.data }
func (k vKeyT) Verify([]byte, *ssh.Signature) error { return nil }

func TestVerifC17(t *testing.T) {
	v := vStart(t)
	pub, _, err := ed25519.GenerateKey(rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	real, err := ssh.NewPublicKey(pub)
	if err != nil {
		t.Fatal(err)
	}
	hosts := []string{"h.example:22", "h.example:2222", "h.example", "x:22", "[::1]:22", "h.example:22x", "ssh-rsa"}
	types := []string{"ssh-ed25519", "ssh-rsa", "ssh-ed25519x", "ecdsa"}
	for i := 0; i < v.n(40000) && v.more(); i++ {
		var key ssh.PublicKey = real
		if v.rng.Intn(4) > 0 {
			key = vKeyT{types[v.rng.Intn(len(types))], []byte{byte(v.rng.Intn(3))}}
		}
		fp := fmt.Sprintf("%x", sha256.Sum256(key.Marshal()))
		host := hosts[v.rng.Intn(len(hosts))]
		addr := &net.TCPAddr{IP: net.IPv4(10, 0, 0, byte(v.rng.Intn(3))), Port: 22}
		var lines []string
		matched, refused, malformed := false, false, false
		for k := v.rng.Intn(4); k > 0; k-- {
			h := hosts[v.rng.Intn(len(hosts))]
			ty, f := key.Type(), fp
			switch v.rng.Intn(6) {
			case 0:
				ty = types[v.rng.Intn(len(types))]
			case 1:
				f = fmt.Sprintf("%x", sha256.Sum256([]byte{byte(v.rng.Intn(3))}))
			case 2:
				f = []string{fp[:len(fp)-1], fp + "0", strings.ToUpper(fp), "", fp[:10]}[v.rng.Intn(5)]
			}
			l := fmt.Sprintf("%s %s %s %s", h, "1.2.3.4:22", ty, f)
			bad := false
			switch v.rng.Intn(9) {
			case 0:
				fs := strings.Split(l, " ")
				l = strings.Join(fs[:v.rng.Intn(4)], " ")
				bad = true
			case 1:
				l = []string{"", " ", "\t", h, h + " ", h + "  ", h + "   ", h + " a b", " " + l, l + " extra"}[v.rng.Intn(10)]
				bad = true
			}
			lines = append(lines, l)
			first := strings.Split(l, " ")[0]
			if first == host && !matched && !refused {
				if bad {
					malformed = true
					refused = true
				} else if ty == key.Type() && f == fp {
					matched = true
				} else {
					refused = true
				}
			}
		}
		known := strings.Join(lines, "\n")
		answer := []string{"y", "Y", "n", "N", "", "yes", "ye", " y", "no", "EOF"}[v.rng.Intn(10)]
		asked := 0
		u := vUI(&vEditor{answer: func(string, bool) (string, error) {
			asked++
			if answer == "EOF" {
				return "", io.EOF
			}
			return answer, nil
		}})
		desc := fmt.Sprintf("host %s with key %s %s, remembered %q, answer %q", host, key.Type(), fp[:8], known, answer)
		v.run(desc)
		v.guard("crash", desc, func() {
			a := &hostAsker{u: u, known: known}
			err := a.callback(host, addr, key)
			yes := answer == "y" || answer == "Y"
			switch {
			case malformed:
				// must not be accepted silently
				if err == nil && asked == 0 {
					v.fail("malformed accepted", "accepted without asking: %s", desc)
				}
			case matched:
				if err != nil || asked > 0 || a.newHost != "" {
					v.fail("known", "a known host with the right key: error %v, %d questions, remembers %q: %s", err, asked, a.newHost, desc)
				}
			case refused:
				if err == nil || a.newHost != "" {
					v.fail("changed key accepted", "error %v, remembers %q: %s", err, a.newHost, desc)
				}
			default:
				if (err == nil) != (asked > 0 && yes) {
					v.fail("unconfirmed", "a new host: error %v, %d questions: %s", err, asked, desc)
				}
				want := ""
				if yes {
					want = fmt.Sprintf("%s %s %s %s", host, addr, key.Type(), fp)
				}
				if a.newHost != want {
					v.fail("remembered", "remembers %q instead of %q: %s", a.newHost, want, desc)
				}
				if err == nil {
					// what was remembered is what is accepted later
					b := &hostAsker{u: vUI(vLines()), known: strings.TrimPrefix(known+"\n"+a.newHost, "\n")}
					if e := b.callback(host, addr, key); e != nil {
						v.fail("remembered", "the remembered host is not accepted again: %v: %s", e, desc)
					}
				}
			}
		})
	}
	// what a session confirmed ends up in the entry, after what was there
	for i := 0; i < v.n(300) && v.more(); i++ {
		u := vUI(vLines())
		db := u.store.DB
		want := map[string]string{}
		newHosts := map[string]string{}
		for k := 0; k < 1+v.rng.Intn(3); k++ {
			id, _ := db.Add()
			db.Set(id, "name", fmt.Sprint("sync/", k))
			if v.rng.Intn(2) == 0 {
				want[id] = strings.Repeat("\nh:22 a t f", 1+v.rng.Intn(3))[1:]
				db.Set(id, "knownhosts", want[id])
			}
			if v.rng.Intn(2) == 0 {
				newHosts[id] = fmt.Sprintf("n%d:22 a t f", k)
				want[id] = strings.TrimPrefix(want[id]+"\n"+newHosts[id], "\n")
			}
		}
		if err := db.UpdateSnapshot(); err != nil {
			v.fail("saveHosts", "cannot prepare: %v", err)
			break
		}
		desc := fmt.Sprintf("saving hosts %v", newHosts)
		v.run(desc)
		v.guard("crash", desc, func() {
			if err := saveHosts(db, newHosts); err != nil {
				v.fail("saveHosts", "%s: %v", desc, err)
			}
			for id, w := range want {
				if got := db.Snapshot[id]["knownhosts"]; got != w {
					v.fail("saveHosts", "%s: the entry remembers %q instead of %q", desc, got, w)
				}
			}
		})
	}
	v.done("random remembered lines (several hosts, types, fingerprints, malformed ones) and answers to the question")
}
