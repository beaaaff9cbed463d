package vrt

import (
	"fmt"
	"io"
	"os"
	"strings"
)

var raceSeen int
var raceOffset int64

// newRaces returns the data races of the code under test reported since the last call: key -> report.
func newRaces() map[string]string {
	if !raceEnabled {
		return nil
	}
	n := raceCount()
	if n == raceSeen {
		return nil
	}
	raceSeen = n
	f, err := os.Open(fmt.Sprintf("%s.%d", os.Getenv("VERIF_RACELOG"), os.Getpid()))
	if err != nil {
		return map[string]string{"race": "data race (no report: " + err.Error() + ")"}
	}
	defer f.Close()
	f.Seek(raceOffset, io.SeekStart)
	b, err := io.ReadAll(f)
	if err != nil {
		return map[string]string{"race": "data race (no report: " + err.Error() + ")"}
	}
	text := string(b)
	raceOffset += int64(len(b))
	out := map[string]string{}
	for _, rep := range strings.Split(text, "==================") {
		if !strings.Contains(rep, "WARNING: DATA RACE") {
			continue
		}
		var tops []string
		harness := false
		lines := strings.Split(rep, "\n")
		for i, l := range lines {
			h := strings.TrimSpace(l)
			if !(strings.HasPrefix(h, "Read at") || strings.HasPrefix(h, "Write at") || strings.HasPrefix(h, "Previous read at") || strings.HasPrefix(h, "Previous write at") ||
				strings.HasPrefix(h, "Atomic read at") || strings.HasPrefix(h, "Atomic write at") || strings.HasPrefix(h, "Previous atomic")) {
				continue
			}
			top, at := "", ""
			for k := i + 1; k < len(lines); k++ {
				f := lines[k]
				if strings.TrimSpace(f) == "" {
					break
				}
				if strings.HasPrefix(f, "  ") && !strings.HasPrefix(f, "      ") {
					f = strings.TrimSpace(f)
					if strings.HasPrefix(f, "runtime.") || strings.HasPrefix(f, "sort.") || strings.HasPrefix(f, "slices.") {
						continue
					}
					top = f
					if k+1 < len(lines) {
						at = lines[k+1]
					}
					break
				}
			}
			if (strings.Contains(at, "/verifmc/") || strings.Contains(at, "/verif_c")) && !strings.Contains(at, "/selfrace/sub/") {
				harness = true
			}
			kind := "read"
			if strings.Contains(strings.ToLower(strings.Fields(h + " x x")[0]+strings.Fields(h + " x x")[1]), "write") {
				kind = "write"
			}
			if i := strings.LastIndex(top, "/"); i >= 0 {
				top = top[i+1:]
			}
			tops = append(tops, kind+" in "+top)
		}
		if harness || len(tops) < 2 || tops[0] == "read in " && tops[1] == "write in " {
			continue
		}
		if tops[1] < tops[0] {
			tops[0], tops[1] = tops[1], tops[0]
		}
		out["data race: "+tops[0]+" / "+tops[1]] = strings.TrimSpace(rep)
	}
	return out
}
