// Command overlay writes a build overlay: a copy of a standard library package
// with observation points. Nothing of the toolchain or of /repo is modified.
//
//	overlay os DIR    writes DIR/overlay.json
//	overlay net DIR
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

var replace = map[string]string{}

func die(a ...interface{}) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(2)
}

func main() {
	kind, dir := os.Args[1], os.Args[2]
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		die(err)
	}
	root := filepath.Join(strings.TrimSpace(string(out)), "src")
	edit := func(file string, subs ...string) {
		b, err := os.ReadFile(filepath.Join(root, file))
		if err != nil {
			die(err)
		}
		s := string(b)
		for i := 0; i < len(subs); i += 2 {
			if strings.Count(s, subs[i]) != 1 {
				die("cannot patch", file, ":", subs[i])
			}
			s = strings.Replace(s, subs[i], subs[i+1], 1)
		}
		dst := filepath.Join(dir, strings.ReplaceAll(file, "/", "_"))
		if err := os.WriteFile(dst, []byte(s), 0644); err != nil {
			die(err)
		}
		replace[filepath.Join(root, file)] = dst
	}
	add := func(file, text string) {
		dst := filepath.Join(dir, strings.ReplaceAll(file, "/", "_"))
		if err := os.WriteFile(dst, []byte(text), 0644); err != nil {
			die(err)
		}
		replace[filepath.Join(root, file)] = dst
	}
	switch kind {
	case "os":
		edit("os/file.go",
			"func (f *File) Write(b []byte) (n int, err error) {", "func (f *File) verifWrite(b []byte) (n int, err error) {",
			"func (f *File) WriteAt(b []byte, off int64) (n int, err error) {", "func (f *File) verifWriteAt(b []byte, off int64) (n int, err error) {",
			"func OpenFile(name string, flag int, perm FileMode) (*File, error) {", "func verifOpenFile(name string, flag int, perm FileMode) (*File, error) {")
		edit("os/file_posix.go",
			"func (f *File) Sync() error {", "func (f *File) verifSync() error {",
			"func (f *File) Truncate(size int64) error {", "func (f *File) verifTruncate(size int64) error {")
		edit("os/file_unix.go",
			"func Truncate(name string, size int64) error {", "func verifTruncate(name string, size int64) error {")
		add("os/zz_verif.go", `package os

// VerifHook is told of every change to a file, after it was done.
var VerifHook func(name string, f *File, op string, b []byte, off int64)

func (f *File) Write(b []byte) (n int, err error) {
	n, err = f.verifWrite(b)
	if VerifHook != nil && f != nil && n > 0 {
		VerifHook(f.name, f, "write", b[:n], 0)
	}
	return
}

func (f *File) WriteAt(b []byte, off int64) (n int, err error) {
	n, err = f.verifWriteAt(b, off)
	if VerifHook != nil && f != nil && n > 0 {
		VerifHook(f.name, f, "writeat", b[:n], off)
	}
	return
}

func (f *File) Sync() error {
	err := f.verifSync()
	if VerifHook != nil && f != nil {
		VerifHook(f.name, f, "sync", nil, 0)
	}
	return err
}

func (f *File) Truncate(size int64) error {
	err := f.verifTruncate(size)
	if VerifHook != nil && f != nil && err == nil {
		VerifHook(f.name, f, "truncate", nil, size)
	}
	return err
}

func Truncate(name string, size int64) error {
	err := verifTruncate(name, size)
	if VerifHook != nil && err == nil {
		VerifHook(name, nil, "truncate", nil, size)
	}
	return err
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	f, err := verifOpenFile(name, flag, perm)
	if VerifHook != nil && err == nil && flag&O_TRUNC != 0 {
		VerifHook(name, f, "truncate", nil, 0)
	}
	return f, err
}
`)
	case "sched":
		schedOverlay(dir)
	case "net":
		netOverlay(edit, add)
		instrument("/repo/ogdlrf", "ogdlrf", "ogdlmc/vp", "ogdlmc/vpsync", dir)
	default:
		die("unknown overlay", kind)
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	if err := os.WriteFile(filepath.Join(dir, "overlay.json"), b, 0644); err != nil {
		die(err)
	}
}

// netOverlay lets the network be simulated: dialing and listening can be taken
// over, and code can be run in a bubble with virtual time.
func netOverlay(edit func(string, ...string), add func(string, string)) {
	edit("net/dial.go",
		"func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {", "func (d *Dialer) verifDialContext(ctx context.Context, network, address string) (Conn, error) {",
		"func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {", "func (lc *ListenConfig) verifListen(ctx context.Context, network, address string) (Listener, error) {")
	add("net/zz_verif.go", `package net

import (
	"context"
	"internal/synctest"
)

// VerifDial and VerifListen take over a host, if they return true.
var (
	VerifDial   func(network, address string) (Conn, error, bool)
	VerifListen func(network, address string) (Listener, error, bool)
)

// VerifBubble runs f in a bubble; VerifWait waits until all other goroutines in it are blocked.
func VerifBubble(f func()) { synctest.Run(f) }

func VerifWait() { synctest.Wait() }

func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
	if VerifDial != nil {
		if c, err, ok := VerifDial(network, address); ok {
			return c, err
		}
	}
	return d.verifDialContext(ctx, network, address)
}

func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {
	if VerifListen != nil {
		if l, err, ok := VerifListen(network, address); ok {
			return l, err
		}
	}
	return lc.verifListen(ctx, network, address)
}
`)
}
