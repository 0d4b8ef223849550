package blobformat

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"
)

func TestVerifC12(t *testing.T) {
	v := vStart(t)
	pool := []string{"a", "b", "a1", "a11", "user/x", "user/y", "x", "user/", "sync/scp", "sync/scp1", "sync/file", "sync/scp11", "", "A"}
	for i := 0; i < v.n(12000) && v.more(); i++ {
		var names []string
		for _, k := range v.rng.Perm(len(pool))[:v.rng.Intn(6)] {
			names = append(names, pool[k])
		}
		b, uuids := vStore(v.rng, names...)
		trace := fmt.Sprintf("names %q", names)
		for step := 0; step < 4 && v.more(); step++ {
			pre := vClone(vState(b.DB))
			from := len(b.DB.Log)
			since := time.Now()
			if v.rng.Intn(3) == 0 {
				b.UpdateSnapshot()
			}
			name := pool[v.rng.Intn(len(pool))]
			taken := func(n string) bool {
				for _, e := range pre {
					if e[KeyName] == n {
						return true
					}
				}
				return false
			}
			var u string
			if len(uuids) > 0 {
				u = uuids[v.rng.Intn(len(uuids))]
			}
			created := func(op, uuid, want string, err error) {
				post := vState(b.DB)
				d := vDiff(pre, post, false)
				if err != nil {
					if len(d) > 0 {
						v.fail(op+" refused", "%s refused with %v after %s, and still changed %v", op, err, trace, d)
					}
					return
				}
				if pre[uuid] != nil || len(d) != 1 || d[0] != uuid+" is new" {
					v.fail(op, "%s after %s changed %v (new entry %s)", op, trace, d, uuid)
					return
				}
				if want != "" && post[uuid][KeyName] != want {
					v.fail(op, "%s after %s named the entry %q", op, trace, post[uuid][KeyName])
				}
				if n := vNames(post); n != "" {
					v.fail("duplicate name", "%s after %s: two entries are named %q", op, trace, n)
				}
				if !vTouched(b.DB, uuid, from, since) {
					v.fail("timestamp", "%s after %s does not set the timestamp", op, trace)
				}
				uuids = append(uuids, uuid)
			}
			var op string
			ok := v.guard("crash", trace+" then a step", func() {
				switch v.rng.Intn(7) {
				case 0:
					op = fmt.Sprintf("New(%q)", name)
					id, err := b.New(name)
					if (err == nil) == taken(name) {
						v.fail("New", "%s after %s: error %v, the name is taken: %v", op, trace, err, taken(name))
					}
					created(op, id, name, err)
				case 1:
					op = fmt.Sprintf("NewUser(%q)", name)
					id, err := b.NewUser(name)
					if (err == nil) == taken("user/"+name) {
						v.fail("NewUser", "%s after %s: error %v, the name is taken: %v", op, trace, err, taken("user/"+name))
					}
					created(op, id, "user/"+name, err)
				case 2:
					kind := []string{"scp", "file"}[v.rng.Intn(2)]
					op = fmt.Sprintf("NewSync(%q)", kind)
					id, err := b.NewSync(kind)
					if err != nil {
						v.fail("NewSync", "%s after %s: %v", op, trace, err)
					} else if e := vState(b.DB)[id]; !strings.HasPrefix(e[KeyName], "sync/"+kind) {
						v.fail("NewSync", "%s after %s: the entry is %v", op, trace, e)
					}
					created(op, id, "", err)
				case 3:
					if u == "" {
						return
					}
					if v.rng.Intn(8) == 0 {
						u = "nobody"
					}
					op = fmt.Sprintf("Rename(%s, %q)", u, name)
					err := b.Rename(u, name)
					post := vState(b.DB)
					d := vDiff(pre, post, true)
					if err != nil {
						if len(vDiff(pre, post, false)) > 0 {
							v.fail("Rename refused", "%s after %s refused with %v, and still changed %v", op, trace, err, d)
						}
						if !taken(name) && pre[u] != nil {
							v.fail("Rename", "%s after %s: %v", op, trace, err)
						}
						return
					}
					if taken(name) || pre[u] == nil || len(d) != 1 || post[u][KeyName] != name {
						v.fail("Rename", "%s after %s changed %v", op, trace, d)
					}
					if n := vNames(post); n != "" {
						v.fail("duplicate name", "%s after %s: two entries are named %q", op, trace, n)
					}
					if !vTouched(b.DB, u, from, since) {
						v.fail("timestamp", "%s after %s does not refresh the timestamp", op, trace)
					}
				case 4, 5:
					if u == "" {
						return
					}
					keys := []string{"name", "updated", "totp", "iv", "salt", "mkey", "user", "pass", "notes", "labels", "custom", "naam", "ivs"}
					key := keys[v.rng.Intn(len(keys))]
					prot := key == "name" || key == "updated" || key == "totp" || key == "iv" || key == "salt" || key == "mkey"
					switch v.rng.Intn(5) {
					case 0:
						key = strings.ToUpper(key)
					case 1:
						key = strings.Title(key)
					}
					op = fmt.Sprintf("Set(%s, %q)", u, key)
					err := b.Set(u, key, "new value")
					post := vState(b.DB)
					if prot {
						if d := vDiff(pre, post, false); err == nil || len(d) > 0 {
							v.fail("protected", "%s after %s: error %v, changed %v", op, trace, err, d)
						} else if !IsKeyNotAllowed(err) {
							v.fail("protected", "%s after %s: the refusal %v is not recognised as such", op, trace, err)
						}
						return
					}
					pre[u][key] = "new value"
					if d := vDiff(pre, post, true); err != nil || len(d) > 0 {
						v.fail("Set", "%s after %s: error %v, differs in %v", op, trace, err, d)
					}
					if !vTouched(b.DB, u, from, since) {
						v.fail("timestamp", "%s after %s does not refresh the timestamp", op, trace)
					}
				case 6:
					if u == "" {
						return
					}
					key := []string{"name", "updated", "iv", "salt", "mkey", "user", "pass", "custom"}[v.rng.Intn(8)]
					op = fmt.Sprintf("DeleteKey(%s, %q)", u, key)
					err := b.DeleteKey(u, key)
					post := vState(b.DB)
					if key == "name" || key == "updated" || key == "iv" || key == "salt" || key == "mkey" {
						if d := vDiff(pre, post, false); err == nil || len(d) > 0 {
							v.fail("protected", "%s after %s: error %v, changed %v", op, trace, err, d)
						}
						return
					}
					delete(pre[u], key)
					if d := vDiff(pre, post, true); err != nil || len(d) > 0 {
						v.fail("DeleteKey", "%s after %s: error %v, differs in %v", op, trace, err, d)
					}
					if !vTouched(b.DB, u, from, since) {
						v.fail("timestamp", "%s after %s does not refresh the timestamp", op, trace)
					}
				}
			})
			trace += " " + op
			v.run(trace)
			if !ok {
				break
			}
		}
	}
	// duplicates
	for i := 0; i < v.n(3000) && v.more(); i++ {
		var names []string
		dups := []string{"a", "a1", "a11", "b", "a", "a1"}
		for k := 0; k < v.rng.Intn(7); k++ {
			names = append(names, dups[v.rng.Intn(len(dups))])
		}
		b, _ := vStore(v.rng, names...)
		pre := vClone(vState(b.DB))
		desc := fmt.Sprintf("RenameDuplicates of %q", names)
		v.run(desc + fmt.Sprint(i))
		from, since := len(b.DB.Log), time.Now()
		v.guard("crash", desc, func() {
			ren, err := b.RenameDuplicates()
			if err != nil {
				v.fail("RenameDuplicates", "%s: %v", desc, err)
				return
			}
			post := vState(b.DB)
			if n := vNames(post); n != "" {
				v.fail("duplicate name", "%s leaves two entries named %q", desc, n)
			}
			count := map[string]int{}
			for _, n := range names {
				count[n]++
			}
			for u, e := range pre {
				was, is := e[KeyName], post[u][KeyName]
				if was != is && !vTouched(b.DB, u, from, since) {
					v.fail("timestamp", "%s renames %q without refreshing its timestamp", desc, was)
				}
				e[KeyName] = is
			}
			if d := vDiff(pre, post, true); len(d) > 0 {
				v.fail("RenameDuplicates", "%s changed more than names: %v", desc, d)
			}
			distinct := true
			for _, c := range count {
				if c > 1 {
					distinct = false
				}
			}
			if distinct && (len(ren) > 0 || len(b.DB.Log) != from) {
				v.fail("RenameDuplicates", "%s: there are none, but it reports %v", desc, ren)
			}
			if !distinct && len(ren) == 0 {
				v.fail("RenameDuplicates", "%s reports nothing", desc)
			}
		})
	}
	// telling users from other entries
	for _, n := range []string{"user/", "user/x", "user/user/x", "xuser/y", "a/user/b", "user", "", "User/x", "sync/user/x"} {
		v.run("SplitUsername " + n)
		want := ""
		if strings.HasPrefix(n, "user/") {
			want = n[5:]
		}
		if got := SplitUsername(n); got != want {
			v.fail("SplitUsername", "SplitUsername(%q) is %q", n, got)
		}
		if IsUserEntry(n) != strings.HasPrefix(n, "user/") {
			v.fail("IsUserEntry", "IsUserEntry(%q) is %v", n, IsUserEntry(n))
		}
	}
	for i := 0; i < v.n(500) && v.more(); i++ {
		var names []string
		for _, k := range v.rng.Perm(len(pool))[:v.rng.Intn(8)] {
			names = append(names, pool[k])
		}
		b, _ := vStore(v.rng, names...)
		v.run(fmt.Sprintf("Users of %q", names))
		us, err := b.Users()
		got := us.Names()
		var want []string
		for _, n := range names {
			if strings.HasPrefix(n, "user/") {
				want = append(want, n)
			}
		}
		sort.Strings(got)
		sort.Strings(want)
		if err != nil || strings.Join(got, "|") != strings.Join(want, "|") {
			v.fail("Users", "the users among %q are %q, %v", names, got, err)
		}
		for _, n := range append([]string{"zzz"}, names...) {
			id, blob, err := b.FindByName(n)
			has := false
			for _, x := range names {
				if x == n {
					has = true
				}
			}
			if err != nil || (id != "") != has || has && (blob[KeyName] != n || vState(b.DB)[id][KeyName] != n) {
				v.fail("FindByName", "FindByName(%q) among %q gives %q %v %v", n, names, id, blob, err)
			}
		}
	}
	v.done("random histories of creating, renaming, setting and deleting over clashing names; stores with duplicate names; key names in several letter cases")
}
