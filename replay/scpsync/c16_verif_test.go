package scpsync

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"path/filepath"
	"strings"
	"testing"
)

// vPeer is the other end: it hands out in piece by piece and records what it is sent,
// noting how much of in had been handed out by then.
type vPeer struct {
	in      []byte
	at      int
	piece   func() int
	out     []byte
	when    []int // for every byte sent: how much had been handed out
	failAt  int   // fail writing from this byte on (-1: never)
	readErr error // instead of EOF
	extra   bool  // deliver the last piece together with EOF
}

func (p *vPeer) Read(b []byte) (int, error) {
	if p.at >= len(p.in) {
		if p.readErr != nil {
			return 0, p.readErr
		}
		return 0, io.EOF
	}
	n := p.piece()
	if n > len(b) {
		n = len(b)
	}
	if n > len(p.in)-p.at {
		n = len(p.in) - p.at
	}
	copy(b, p.in[p.at:p.at+n])
	p.at += n
	return n, nil
}

func (p *vPeer) Write(b []byte) (int, error) {
	for i, c := range b {
		if p.failAt >= 0 && len(p.out) >= p.failAt {
			return i, errors.New("broken pipe")
		}
		p.out = append(p.out, c)
		p.when = append(p.when, p.at)
	}
	return len(b), nil
}

func TestVerifC16(t *testing.T) {
	v := vStart(t)
	pieces := func() func() int {
		k := v.rng.Intn(3)
		return func() int {
			switch k {
			case 0:
				return 1
			case 1:
				return 1 + v.rng.Intn(9)
			}
			return 1 << 20
		}
	}
	// downloads
	for i := 0; i < v.n(25000) && v.more(); i++ {
		data := make([]byte, v.rng.Intn(40))
		v.rng.Read(data)
		if v.rng.Intn(30) == 0 {
			data = make([]byte, v.rng.Intn(9000))
			v.rng.Read(data)
		}
		if v.rng.Intn(4) == 0 {
			data = append(data, 0)
		}
		mode := []string{"0644", "0600", "644", "0777", "0", "0101", "04755"}[v.rng.Intn(7)]
		modeN := 0
		fmt.Sscanf(mode, "%o", &modeN)
		ln := fmt.Sprint(len(data))
		head := fmt.Sprintf("C%s %s %s\n", mode, ln, "name.blob")
		term := "\x00"
		good := true
		what := "correct"
		switch v.rng.Intn(12) {
		case 0: // announced too much or too little
			d := v.rng.Intn(7) - 3
			if d != 0 && len(data)+d >= 0 {
				head = fmt.Sprintf("C%s %d name.blob\n", mode, len(data)+d)
				full := string(data) + term
				// good only if the announced bytes are there and followed by a zero
				want := len(data) + d
				good = want < len(full) && full[want] == 0
				if good {
					data = data[:want]
					term = full[want:]
				}
				what = fmt.Sprintf("length off by %d", d)
			}
		case 1:
			x := []string{"-1", "-2", "-9999999999", "99999999999", "1e3", "0x10", "", "abc", "+", "-0", "9223372036854775807", "-9223372036854775808"}[v.rng.Intn(12)]
			head = fmt.Sprintf("C%s %s name.blob\n", mode, x)
			good = x == "-0" && len(data) == 0
			if x == "-0" && len(data) > 0 && data[0] == 0 {
				continue
			}
			what = "length " + x
		case 2:
			x := []string{"0999", "abc", "", "77777777777777", "8"}[v.rng.Intn(5)]
			head = fmt.Sprintf("C%s %s name.blob\n", x, ln)
			good = false
			what = "mode " + x
		case 3:
			head = []string{"", "\n", "C\n", "D0644 0 x\n", "\x01no such file or directory\n", "\x02fatal\n", "\x00\n", "C0644\n", "C0644 3\n", "C0644 3 a b\n", "T1 2 3 4\n", "\x01\n", "\x01"}[v.rng.Intn(13)]
			good = false
			what = fmt.Sprintf("header %q", head)
		case 4:
			term = []string{"\x01", "\x02", "x", "\n", ""}[v.rng.Intn(5)]
			good = false
			what = fmt.Sprintf("terminator %q", term)
		case 5:
			if len(data) > 0 {
				data = data[:v.rng.Intn(len(data))]
				term = ""
				good = false
				what = "cut short"
			}
		}
		p := &vPeer{in: []byte(head + string(data) + term), piece: pieces(), failAt: -1}
		if v.rng.Intn(10) == 0 {
			p.failAt = v.rng.Intn(3)
			good = false
			what += fmt.Sprintf(", writing fails after %d bytes", p.failAt)
		}
		if v.rng.Intn(3) == 0 {
			p.readErr = errors.New("connection reset")
		}
		desc := fmt.Sprintf("download of %d bytes, %s", len(data), what)
		v.run(desc + fmt.Sprint(i))
		v.guard("crash", desc, func() {
			f, err := readFile(p)
			if err != nil {
				if good {
					v.fail("download refused", "%s: %v", desc, err)
				}
				return
			}
			if !good {
				v.fail("download accepted", "%s is reported as a success with %d bytes", desc, len(f.Contents))
				return
			}
			if !bytes.Equal(f.Contents, data) {
				v.fail("download altered", "%s delivers %q instead of %q", desc, vShort(f.Contents), vShort(data))
			}
			if f.Mode != modeN {
				v.fail("download mode", "%s has mode %o", desc, f.Mode)
			}
			if f.Length != int64(len(data)) || f.Filename != "name.blob" {
				v.fail("download header", "%s is described as %q with %d bytes", desc, f.Filename, f.Length)
			}
			if !bytes.Equal(p.out, []byte{0, 0, 0}) {
				v.fail("acknowledgements", "%s is acknowledged with %q", desc, p.out)
			} else if p.when[0] != 0 || p.when[1] < len(head) || p.when[2] < len(head)+len(data)+1 {
				v.fail("acknowledgements", "%s acknowledges after %v bytes, before having received what it acknowledges", desc, p.when)
			}
		})
	}
	// the errors of the remote are recognised
	for _, c := range []struct {
		head  string
		found bool
	}{{"\x01scp: x: No such file or directory\n", true}, {"\x01scp: x: Permission denied\n", false}, {"\x02scp: no such file or directory\n", false}} {
		p := &vPeer{in: []byte(c.head), piece: func() int { return 100 }, failAt: -1}
		_, err := readFile(p)
		v.run("remote says " + c.head)
		if err == nil || IsNotFoundErr(err) != c.found {
			v.fail("not found", "when the remote says %q the error is %v, not-found: %v", c.head, err, IsNotFoundErr(err))
		}
	}
	// uploads
	for i := 0; i < v.n(20000) && v.more(); i++ {
		data := make([]byte, v.rng.Intn(50))
		v.rng.Read(data)
		if v.rng.Intn(30) == 0 {
			data = make([]byte, v.rng.Intn(90000))
			v.rng.Read(data)
		}
		ln := int64(len(data))
		reply := "\x00"
		good := true
		what := "OK"
		switch v.rng.Intn(6) {
		case 0:
			reply = []string{"", "\x01", "\x02", "\x01warning\n", "\x02fatal\n", "\x03", "0", "x", "\n\x00", "\x01\x00", "C0644 1 x\n", "\x02\n", "\xff"}[v.rng.Intn(13)]
			good = false
			what = fmt.Sprintf("answer %q", reply)
		case 1:
			reply = "\x01" + strings.Repeat("long", 200) + "\n"
			good = false
			what = "a long warning"
		case 2:
			d := v.rng.Intn(5) - 2
			if d != 0 && ln+int64(d) >= 0 {
				ln += int64(d)
				good = false
				what = fmt.Sprintf("the file is not as long as announced, by %d", d)
			}
		}
		name := []string{"file.blob", "/a/b/file.blob", "b/x", "x"}[v.rng.Intn(4)]
		mode := []int{0o600, 0o644, 0o777}[v.rng.Intn(3)]
		p := &vPeer{in: []byte(reply), piece: pieces(), failAt: -1}
		head := fmt.Sprintf("C0%o %d %s\n", mode, ln, filepath.Base(name))
		full := head + string(data) + "\x00"
		if v.rng.Intn(8) == 0 {
			p.failAt = v.rng.Intn(len(full))
			good = false
			what += fmt.Sprintf(", writing fails after %d bytes", p.failAt)
		}
		var src io.Reader = bytes.NewReader(data)
		if v.rng.Intn(8) == 0 {
			src = io.MultiReader(bytes.NewReader(data[:len(data)/2]), vFailing{})
			good = false
			what += ", reading the file fails"
		}
		desc := fmt.Sprintf("upload of %d bytes, %s", len(data), what)
		v.run(desc + fmt.Sprint(i))
		v.guard("crash", desc, func() {
			err := sendFile(p, src, name, ln, mode)
			if (err == nil) != good {
				v.fail("upload", "%s: the result is %v", desc, err)
				return
			}
			if good && string(p.out) != full {
				v.fail("upload altered", "%s sends %q instead of %q", desc, vShort(p.out), vShort([]byte(full)))
			}
		})
	}
	v.done("random contents, modes and piece sizes; malformed headers, lengths, terminators and replies; failing reads and writes")
}

type vFailing struct{}

func (vFailing) Read([]byte) (int, error) { return 0, errors.New("disk error") }

func vShort(b []byte) string {
	if len(b) > 60 {
		b = b[:60]
	}
	return string(b)
}
