package wire

import (
	"os/user"
	"sort"

	"github.com/hired/gevulot/pkg/pg"
)

// dsn parses a URL twice; what the caller does with the first result must not show in the second.
func dsn(u Bytes) func() []m {
	var evs []m
	for i := 0; i < 2; i++ {
		var ps pg.ConnectionParams
		var err error
		if !guarded(func() { ps, err = pg.ParseDatabaseURI(string(u)) }) {
			evs = append(evs, m{"e": "Panic", "what": "panic"})
			continue
		}
		evs = append(evs, parsed(u, ps, err))
		for k := range ps {
			ps[k] = "spoilt"
		}
		if ps != nil {
			ps["spoilt"] = "spoilt"
		}
	}
	return func() []m { return evs }
}

func parsed(u Bytes, ps pg.ConnectionParams, err error) m {
	r, l := "ok", []m{}
	if err != nil {
		r = "err"
	} else {
		for k, v := range ps {
			l = append(l, m{"k": Bytes(k), "v": Bytes(v)})
		}
		sort.Slice(l, func(i, j int) bool { return string(l[i]["k"].(Bytes)) < string(l[j]["k"].(Bytes)) })
	}
	os := ""
	if c, err := user.Current(); err == nil {
		os = c.Username
	}
	return m{"e": "Parse", "u": u, "os": Bytes(os), "r": r, "ps": l}
}
