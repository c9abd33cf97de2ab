package pdf

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
	"time"
)

func TestVerifC25(t *testing.T) {
	n := vPick(300, 3000)
	vRule("the command line tool run %d times in a scratch directory: output path absent, a directory, an empty directory, a file, a link, a link to itself; with and without -f; with and without password; tree before and after compared with what Parse does", n)
	bin := os.Getenv("VERIF_MAIN")
	if _, err := os.Stat(bin); bin == "" || err != nil {
		fmt.Println("no binary")
		return
	}
	r := vNewRand("C25")
	top := filepath.Join(vWorkDir(), "out25")
	for i := 0; i < n && vTimeLeft(); i++ {
		os.RemoveAll(top)
		os.MkdirAll(filepath.Join(top, "d"), 0755)
		var text []byte
		want := ""
		pw := ""
		secret := r.coin(3)
		if secret {
			pw = r.pick("secret", "", "pass word", "-f")
			c := &vCrypt{v: 1, r: 2, n: 5, o: r.bytes(32), p: -4, id: r.bytes(16), meta: true}
			d := vNewDoc(r)
			d.crypt = func(o *vIO, s []byte) []byte { return c.encrypt(r, pw, c.strings(), o, s) }
			d.add(1, Dictionary{"JS": String("script")}).enc = true
			d.trailer["ID"] = Array{String(c.id), String(c.id)}
			d.trailer["Encrypt"] = c.dict(r, pw, func(o Object) Object { return o })
			text, _ = d.write(true)
		} else {
			d := vNewDoc(r)
			d.add(1, Dictionary{"JS": String("script")})
			text, _ = d.write(r.coin(2))
		}
		want = "script\n"
		input := filepath.Join(top, "in.pdf")
		os.WriteFile(input, text, 0644)
		out := filepath.Join(top, r.pick("out", "d/out", "d/new/deep"))
		kind := r.n(8)
		if strings.HasSuffix(out, "deep") {
			kind = 0
		}
		exists := kind != 0
		switch kind {
		case 1:
			os.MkdirAll(filepath.Join(out, "old"), 0755)
			os.WriteFile(filepath.Join(out, "javascript.js"), []byte("old"), 0644)
			os.WriteFile(filepath.Join(out, "old", "x"), []byte("old"), 0644)
		case 2:
			os.MkdirAll(out, 0755)
		case 3:
			os.WriteFile(out, []byte("a file"), 0644)
		case 4:
			os.MkdirAll(filepath.Join(top, "real"), 0755)
			os.WriteFile(filepath.Join(top, "real", "urls.txt"), []byte("keep"), 0644)
			os.Symlink(filepath.Join(top, "real"), out)
		case 5:
			os.WriteFile(out, nil, 0644)
		case 7:
			os.Symlink("loop", filepath.Join(filepath.Dir(out), "loop"))
			os.Symlink("loop", out)
		case 6:
			os.MkdirAll(filepath.Join(out, "commands.txt"), 0755)
		}
		args := []string{}
		force := r.coin(2)
		if force {
			args = append(args, "-f")
		}
		given := pw
		if pw != "" || r.coin(3) {
			if r.coin(5) {
				given = "wrong"
			}
			args = append(args, "-p", given)
		}
		if r.coin(4) {
			args = append(args, "-v")
		}
		bad := r.coin(12)
		switch {
		case bad:
			args = append(args, input)
		case r.coin(3):
			args = append(args, input, strings.TrimPrefix(out, top+"/"))
		default:
			args = append(args, input, out)
		}
		before := vTree(top)
		vCall("pdfparser", fmt.Sprint(args, kind, secret), func() {
			cmd := exec.Command(bin, args...)
			cmd.Dir = top
			if err := cmd.Start(); err != nil {
				fmt.Println("cannot run", err)
				return
			}
			done := make(chan bool)
			go func() {
				select {
				case <-done:
				case <-time.After(20 * time.Second):
					vWit("hang", "the command line tool with %q does not end", args)
					cmd.Process.Kill()
				}
			}()
			cmd.Wait()
			close(done)
			after := vTree(top)
			if bad || exists && !force {
				for k, v := range before {
					if after[k] != v {
						vWit("changed", "the tool with %q changes %s from %q to %q though the output exists (or arguments are missing)", args, k, v, after[k])
					}
				}
				for k := range after {
					if _, ok := before[k]; !ok {
						vWit("created", "the tool with %q creates %s though the output exists (or arguments are missing)", args, k)
					}
				}
				return
			}
			rel := strings.TrimPrefix(out, top+"/")
			got := after[rel+"/javascript.js"]
			if !secret || given == pw {
				if got != "file "+want {
					vWit("extract", "the tool with %q leaves %q in javascript.js, specified is %q", args, got, want)
				}
			} else if got != "file " {
				vWit("password", "the tool with %q and a wrong password leaves %q in javascript.js", args, got)
			}
			for _, f := range vReports {
				if !strings.HasPrefix(after[rel+"/"+f], "file ") {
					vWit("report", "the tool with %q does not create %s", args, f)
				}
			}
			for k, v := range before {
				if k != rel && !strings.HasPrefix(k, rel+"/") && after[k] != v {
					vWit("outside", "the tool with %q changes %s", args, k)
				}
			}
			for k := range after {
				if _, ok := before[k]; !ok && k != rel && !strings.HasPrefix(k, rel+"/") && !strings.HasPrefix(rel, k+"/") {
					vWit("outside", "the tool with %q creates %s", args, k)
				}
			}
		})
	}
	os.RemoveAll(top)
	vDone()
}
