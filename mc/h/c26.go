package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/sandbox"
)

var bundled = []string{"DigiCert_RDAP_Pilot_Client_Certificate.p12", "DigiCert_RDAP_Pilot_Client_Certificate_Expired.p12", "DigiCert_RDAP_Pilot_Client_Certificate_Revoked.p12"}

// fileGuard sees every file operation of the process; those it does not allow are recorded and not performed.
type fileGuard struct {
	mu    sync.Mutex
	allow func(op, path string) bool
	bad   []string
	ok    []string
}

func (g *fileGuard) on() {
	syscall.VerifBefore = func(ev *syscall.VerifEvent) {
		for i, p := range []string{ev.Path, ev.Path2} {
			if p == "" {
				continue
			}
			q := p
			if !filepath.IsAbs(q) {
				wd, _ := syscall.Getwd()
				if fd := []int{ev.FD, ev.FD2}[i]; fd > 0 {
					wd = syscall.VerifRawReadlink(fmt.Sprintf("/proc/self/fd/%d", fd))
				}
				q = wd + "/" + q
			}
			q = filepath.Clean(q)
			g.mu.Lock()
			if g.allow(ev.Op, q) {
				g.ok = append(g.ok, ev.Op+" "+q)
			} else {
				g.bad = append(g.bad, ev.Op+" "+p)
				ev.Done, ev.Err, ev.N = true, syscall.EACCES, -1
			}
			g.mu.Unlock()
		}
	}
	syscall.VerifAfter = func(*syscall.VerifEvent) {}
}

func isBundled(p string) bool {
	for _, b := range bundled {
		if strings.HasSuffix(p, "/sandbox/"+b) {
			return true
		}
	}
	return false
}

func init() {
	var home, cwd, tmp string
	names := []string{}
	for _, b := range bundled {
		names = append(names, b, "./"+b, "/"+b, "../"+b, "sandbox/"+b, "x/../"+b, b+"/", b+".", b+" ", " "+b, b+"\x00", strings.ToLower(b), strings.ToUpper(b), b+"/../file.go", b[:len(b)-1], "/repo/sandbox/"+b, b+"\n")
	}
	names = append(names, "", ".", "..", "/", "file.go", "../go.mod", "../../etc/passwd", "/etc/passwd", "DigiCert_RDAP_Pilot_Client_Certificate", "*.p12", "DigiCert_RDAP_Pilot_Client_Certificate.p12DigiCert_RDAP_Pilot_Client_Certificate_Expired.p12", "DigiCert_RDAP_Pilot_Client_Certificate_expired.p12", "~/x.p12", "client.p12", "file:///etc/passwd")
	register(&Check{
		ID:   "C26",
		Rule: "whole commands in sandbox mode (three ways of enabling it) x cache directories (absolute, relative, traversing, empty, existing or not) x certificate options (none, PEM pair, PKCS#12 with ~65 names around the bundled ones, with and without passwords) x @file arguments and file URLs x other options; every file operation of the process is intercepted: one outside the default cache directory and the bundled certificates is a violation (and is not performed); the certificate loader is called with every name",
		Setup: func(c *Ctx) {
			home = filepath.Join(scratchRoot, "home")
			cwd = filepath.Join(scratchRoot, "cwd")
			os.MkdirAll(home, 0o755)
			os.MkdirAll(cwd, 0o755)
			tmp = filepath.Join(scratchRoot, "tmp")
			os.MkdirAll(tmp, 0o755)
			os.Setenv("TMPDIR", tmp)
			os.Setenv("HOME", home)
			os.Unsetenv("XDG_CACHE_HOME")
			if err := os.Chdir(cwd); err != nil {
				harnessf("%v", err)
			}
			_ = time.Now().Local().String() // time zone data is read once
			for _, b := range bundled {
				os.WriteFile(filepath.Join(cwd, b), []byte("decoy"), 0o644)
			}
			os.WriteFile(filepath.Join(cwd, "args"), []byte("--json\n"), 0o644)
			os.WriteFile(filepath.Join(cwd, "c.pem"), []byte("decoy"), 0o644)
			g := &fileGuard{allow: func(string, string) bool { return false }}
			g.on()
			os.ReadFile("c.pem")
			os.Stat("/etc/hostname")
			resetHooks()
			if len(g.bad) != 2 {
				harnessf("file operations are not seen: %v", g.bad)
			}
		},
		Bounds: func(c *Ctx) map[string]any {
			return map[string]any{"ways_to_enable": 4, "cache_dirs": 31, "certificate_names": len(names), "passwords": 3, "file_arguments": 12, "other_options": 11}
		},
		Assumptions: []string{"file operations go through package syscall (os, io/fs and ioutil do)", "the environment (HOME, XDG_CACHE_HOME) is the embedding program's, not the command line's"},
		Run: func(c *Ctx) {
			if c.Bool("loader") {
				n := Of(c, "name", names)
				c.Shard()
				c.scrub = scratchRoot
				want := n == bundled[0] || n == bundled[1] || n == bundled[2]
				g := &fileGuard{allow: func(op, p string) bool { return want && isBundled(p) }}
				g.on()
				b, err := sandbox.LoadFile(n)
				is := sandbox.IsFileInSandbox(n)
				resetHooks()
				c.Step()
				c.State(n, err == nil)
				c.Check(is == want, "IsFileInSandbox(%q) = %v", n, is)
				c.Check((err == nil) == want, "LoadFile(%q): error %v", n, err)
				c.Check(len(g.bad) == 0, "LoadFile(%q): %q", n, g.bad)
				if want {
					disk, derr := os.ReadFile("/repo/sandbox/" + n)
					c.Check(derr != nil || string(disk) == string(b), "LoadFile(%q) gives %d bytes, the file has %d", n, len(b), len(disk))
				}
				return
			}
			enable := c.Choose("enable", 4) // embedding program, experiment first, experiment last, both
			opts := [][]string{}
			cacheDirs := []string{"-", "", "default", cwd + "/cache", "cache", "../escape", ".", "/", cwd, home + "/.cache/openrdap/../x", "/etc", home + "/.cache", "@args", "DEFAULT", "default/", "~", tmp, tmp + "/sub", "/tmp", "/var/tmp", "/dev/shm", home, home + "/.cache/openrdap", home + "/.cache/openrdap/sub", home + "/.cache/openrdap2", "$HOME", "openrdap", cwd + "/openrdap", "/root", "/repo/sandbox", "-" + tmp}
			cd := Of(c, "cache dir", cacheDirs)
			kind := c.Choose("kind", 4)
			c.Shard()
			// options that have nothing to do with files
			more := Of(c, "more", [][]string{nil, {"-k"}, {"-v"}, {"--json"}, {"-e"}, {"-w", "-T", "1"}, {"--raw", "--bs-ttl=5"}, {"--insecure", "--verbose", "--exp=test_rdap_net", "--text"}, {"-s", "http://srv.test/", "-t", "domain"}, {"-f", "all"}, {"-t", "domain", "-k", "-e"}})
			if more != nil && cd != "-" && cd != "cache" && cd != cwd && !c.Thorough() {
				return
			}
			if cd != "-" {
				opts = append(opts, []string{"--cache-dir=" + cd})
			}
			query := []string{"x.test"}
			switch kind {
			case 0: // PEM pair
				p := Of(c, "pem", []string{"", "c.pem", cwd + "/c.pem", "../cwd/c.pem", "/etc/passwd", bundled[0]})
				if p != "" {
					q := Of(c, "key", []string{p, "nosuch.pem", cwd + "/c.pem"})
					opts = append(opts, []string{"--cert=" + p}, []string{"-K", q})
				}
			case 1: // PKCS#12
				n := Of(c, "p12", names)
				pw := Of(c, "password", []string{"", ":", ":secret", ":" + bundled[0]})
				if n == "" && pw == "" {
					return
				}
				opts = append(opts, []string{"-P", n + pw})
			case 2: // arguments naming files
				query = Of(c, "argument", [][]string{{"@args"}, {"@" + cwd + "/args"}, {"@nosuch"}, {"x.test", "@args"}, {"@args", "x.test"}, {"-t", "url", "file:///etc/passwd"}, {"file:///etc/passwd"}, {"-s", "file:///etc/", "-t", "domain", "passwd"}, {"-t", "url", cwd + "/args"}, {"--server=@args", "x.test"}, {"-t", "@args", "x"}, {"@/etc/passwd"}})
			case 3: // bootstrap URLs naming files
				opts = append(opts, []string{Of(c, "bs-url", []string{"--bs-url=file:///etc/", "--bs-url=" + cwd + "/", "--bs-url=@args", "--bs-url=file://" + "localhost" + cwd + "/"})})
			}
			var args []string
			sb := rdap.CLIOptions{}
			switch enable {
			case 0:
				sb.Sandbox = true
			case 1:
				args = append(args, "--exp=sandbox")
			case 3:
				sb.Sandbox = true
				args = append(args, "--exp", "sandbox")
			}
			if kind != 3 {
				args = append(args, "--bs-url=http://bs.test/")
			}
			for _, o := range opts {
				args = append(args, o...)
			}
			args = append(args, query...)
			args = append(args, more...)
			if enable == 2 {
				args = append(args, "--exp=object_tag", "--exp=sandbox")
			}
			c.scrub = scratchRoot
			c.Note("rdap %q (sandboxed by the embedding program: %v)", args, sb.Sandbox)
			os.RemoveAll(filepath.Join(home, ".cache"))
			def := filepath.Join(home, ".cache", "openrdap")
			g := &fileGuard{allow: func(op, p string) bool {
				if p == def || strings.HasPrefix(p, def+"/") || isBundled(p) && op != "unlink" && op != "mkdir" {
					return true
				}
				// making the default directory looks at and creates its parents
				return strings.HasPrefix(def, strings.TrimSuffix(p, "/")+"/") && (op == "stat" || op == "lstat" || op == "mkdir")
			}}
			var code int
			Bubble(func() {
				w := cliNet()
				g.on()
				code, _, _ = w.runCLI(args, sb)
				resetHooks()
			})
			c.Step()
			c.State(enable, cd, kind, code, len(g.ok))
			c.Check(len(g.bad) == 0, "file operations outside the default cache directory: %q", g.bad)
			if kind == 1 {
				n := opts[len(opts)-1][1]
				n, _, _ = strings.Cut(n, ":")
				if !(n == bundled[0] || n == bundled[1] || n == bundled[2]) && n != "" {
					for _, o := range g.ok {
						c.Check(!isBundled(o), "the name %q loads a bundled certificate: %s", n, o)
					}
					c.Check(code == 1, "a certificate %q that is not bundled is accepted", n)
				}
			}
		},
	})
	_ = fmt.Sprint
}
