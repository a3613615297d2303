//go:build go1.22

package writer_test

import (
	"bytes"
	"os"
	"path/filepath"
	"testing"

	"github.com/aligator/goslice/vh"
	"github.com/aligator/goslice/writer"
)

func TestVerifC23Write(t *testing.T) {
	dir := t.TempDir()
	vh.RunN(t, "C23", "writing texts of up to 300 kB to new, shorter and longer existing files, to directories, into missing directories and to a full device; non-trivial: distinct inputs", 1<<30, 0.4, func(r *vh.R) {
		n := r.Intn(200)
		if r.One(4) {
			n = r.Intn(300000)
		}
		text := make([]byte, n)
		for k := range text {
			text[k] = byte(r.Intn(256))
			if r.One(2) {
				text[k] = "\n%dG1\r"[r.Intn(6)]
			}
		}
		name := filepath.Join(dir, []string{"out", "out.gcode", "a b ü"}[r.Intn(3)])
		k := r.Intn(7)
		r.Log("kind %d text of %d bytes", k, n)
		os.Remove(name)
		fails := false
		switch k {
		case 0: // new file
		case 1, 2:
			os.WriteFile(name, bytes.Repeat([]byte("old "), r.Intn(n+100)), 0644)
		case 3:
			name = dir
			fails = true
		case 4:
			name = filepath.Join(dir, "missing", "f")
			fails = true
		case 5:
			name = "/dev/full"
			if n == 0 {
				r.Skip()
			}
			fails = true
		case 6:
			name = ""
			fails = true
		}
		err := writer.Writer().Write(string(text), name)
		r.Check((err != nil) == fails, "error %v", err)
		if fails {
			return
		}
		got, e := os.ReadFile(name)
		r.Check(e == nil && bytes.Equal(got, text), "the file has %d bytes and differs from the text with %d bytes", len(got), n)
	})
}
