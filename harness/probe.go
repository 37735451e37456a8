package main

import (
	"bufio"
	"encoding/json"
	"io"
	"os"
	"os/exec"

	"github.com/rom1mouret/ml-essentials/dataframe"
)

// A probe is a second process that hashes strings with the library: hashes must not
// depend on the process.

type probeReq struct {
	Strings [][]byte
	CPU     int
	Columns int // the strings are spread over this many columns
}

// probe is the child: one JSON request per line, one answer per line.
func probe() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := json.NewEncoder(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			os.Exit(0)
		}
		var r probeReq
		if json.Unmarshal(line, &r) != nil {
			os.Exit(3)
		}
		k := imax(1, r.Columns)
		n := (len(r.Strings) + k - 1) / k
		raw := dataframe.NewRawData()
		raw.SetMaxCPU(r.CPU)
		b := dataframe.DataBuilder{RawData: raw}
		var cols []string
		for j := 0; j < k; j++ {
			v := make([]string, n)
			for i := range v {
				if q := j*n + i; q < len(r.Strings) {
					v[i] = string(r.Strings[q])
				}
			}
			name := "p" + string(rune('a'+j))
			cols = append(cols, name)
			b.AddStrings(name, v...)
		}
		h := b.ToDataFrame().HashStringsView(cols...)
		ans := make([]int, len(r.Strings))
		for q := range ans {
			ans[q] = h.Ints(cols[q/n]).Get(q % n)
		}
		if out.Encode(ans) != nil {
			os.Exit(3)
		}
	}
}

type probeProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *json.Decoder
}

var theProbe *probeProc

// hashElsewhere hashes strings in another process (nil if that process cannot be used).
func (c *Ctx) hashElsewhere(strs []string, cpu, columns int) []int {
	if theProbe == nil {
		cmd := exec.Command(os.Args[0], "probe")
		in, e1 := cmd.StdinPipe()
		out, e2 := cmd.StdoutPipe()
		if e1 != nil || e2 != nil || cmd.Start() != nil {
			return nil
		}
		theProbe = &probeProc{cmd, in, json.NewDecoder(out)}
	}
	r := probeReq{CPU: cpu, Columns: columns}
	for _, s := range strs {
		r.Strings = append(r.Strings, []byte(s))
	}
	b, _ := json.Marshal(r)
	if _, err := theProbe.in.Write(append(b, '\n')); err != nil {
		return nil
	}
	var ans []int
	if err := theProbe.out.Decode(&ans); err != nil || len(ans) != len(strs) {
		return nil
	}
	return ans
}

func stopProbe() {
	if theProbe != nil {
		theProbe.in.Close()
		theProbe.cmd.Wait()
		theProbe = nil
	}
}
