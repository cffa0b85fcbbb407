package main

import (
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"
)

var boundRe = regexp.MustCompile(`(?m)^// (BOUND|OUTSIDE) (C\d\d): (.*)$`)

// bounds collects the bound statements written next to the harnesses.
func bounds(verif, prop string) (in, out []string) {
	fs, _ := filepath.Glob(filepath.Join(verif, "harness", "*.go"))
	for _, f := range fs {
		src, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, m := range boundRe.FindAllStringSubmatch(string(src), -1) {
			if m[2] != prop {
				continue
			}
			if m[1] == "BOUND" {
				in = append(in, strings.TrimSpace(m[3]))
			} else {
				out = append(out, strings.TrimSpace(m[3]))
			}
		}
	}
	return
}

func evidence(e *Engine, prop, tier string, t0 time.Time, cov map[string]interface{}, outcome int) map[string]interface{} {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	in, out := bounds(e.verif, prop)
	cov["bounds"] = in
	cov["outside_bounds"] = out
	cov["how_counted"] = "states: symbolic states created (initial ones plus one per feasible fork, each standing for every input satisfying its path condition); transitions: SSA instructions of the real code and harness executed symbolically; traces_validated_against_impl: solver models of finished paths re-run natively against the real code with identical observations"
	var viol []map[string]string
	for _, v := range e.violations {
		viol = append(viol, map[string]string{"harness": v.Harness, "label": v.Label, "kind": v.Kind})
	}
	cov["violations"] = viol
	return map[string]interface{}{
		"property":   prop,
		"tier":       tier,
		"seed":       seed,
		"level":      "model_checking",
		"coverage":   cov,
		"wall_s":     time.Since(t0).Seconds(),
		"violations": len(e.violations),
		"exit":       outcome,
	}
}
