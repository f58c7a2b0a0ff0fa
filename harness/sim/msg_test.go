package sim

import (
	"encoding/binary"
	"fmt"
	"math/rand"
)

// Message catalogue: what a client (frontend) and a database (backend) can send. Every frame is derived from
// (seed, session, direction, index), so both ends can be computed again.

func frameOf(t byte, body []byte) []byte {
	b := make([]byte, 5, 5+len(body))
	b[0] = t
	binary.BigEndian.PutUint32(b[1:], uint32(len(body)+4))
	return append(b, body...)
}

func be16(v int) []byte { return []byte{byte(v >> 8), byte(v)} }
func be32(v int) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }
func cstr(s string) []byte {
	return append([]byte(s), 0)
}
func cat(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

func randBytes(rng *rand.Rand, n int) []byte {
	b := make([]byte, n)
	rng.Read(b)
	return b
}

func randText(rng *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(1 + rng.Intn(255))
	}
	return string(b)
}

var bigSizes = []int{250, 251, 252, 255, 256, 257, 500, 507, 508, 511, 512, 513, 1019, 1024, 4091, 4096, 8187, 8192, 16384, 32763, 32767, 32768, 65530, 65531, 65535, 65536, 70000, 131072}

var hugeSizes = []int{1 << 18, 1<<20 - 5, 1 << 20, 1<<20 + 1, 3 << 20, 1<<23 + 9, 1<<24 - 5, 1 << 24, 1<<24 + 77, 17000000}

// size of the variable part of a message, by profile
func varSize(rng *rand.Rand, prof string) int {
	switch prof {
	case "big":
		return bigSizes[rng.Intn(len(bigSizes))]
	case "huge":
		if rng.Intn(4) == 0 {
			return hugeSizes[rng.Intn(len(hugeSizes))]
		}
		return rng.Intn(300)
	case "bulk":
		return 1500 + rng.Intn(3000)
	case "small":
		return rng.Intn(24)
	}
	switch rng.Intn(20) {
	case 0:
		return bigSizes[rng.Intn(len(bigSizes)-8)]
	case 1, 2:
		return 200 + rng.Intn(400)
	default:
		return rng.Intn(40)
	}
}

// exactSize is the length of a whole frame: near a multiple of a power of two.
func exactSize(rng *rand.Rand, prof string) int {
	k := 7 + rng.Intn(6)
	if prof == "big" {
		k = 9 + rng.Intn(9) // up to 128 KiB
	}
	n := 1 << k
	if k < 16 {
		n *= 1 + rng.Intn(4)
	}
	return n + []int{0, 0, 0, 1, -1, 4, 5, -4, -5}[rng.Intn(9)]
}

var knownTypes = []byte("RvKSpZQTDCIENXPBFHfdcGWAns123tVu")

// genFrame builds message i of a direction ('c': sent by the client, 'd': by the database).
func genFrame(seed int64, s int, dir byte, i int, prof string) []byte {
	if prof == "haul" { // very many small messages
		return frameOf([]byte("dQcZ")[i%4], []byte{dir, byte(s), byte(i), byte(i >> 8), byte(i >> 16), 0}[:6-i%3/2])
	}
	rng := rand.New(rand.NewSource(seed*1000003 + int64(s)*7919 + int64(dir)*104729 + int64(i)*15485863))
	if i > 1 && rng.Intn(12) == 0 { // the same message once more
		return genFrame(seed, s, dir, i-1, prof)
	}
	tag := fmt.Sprintf("%c%d.%d:%x", dir, s, i, rng.Uint32())
	pad := func() []byte { return randBytes(rng, varSize(rng, prof)) }
	txt := func() string { return tag + randText(rng, varSize(rng, prof)) }
	// frames of a particular total length
	if rng.Intn(map[string]int{"big": 4, "mixed": 30}[prof]+1) == 1 {
		n := exactSize(rng, prof)
		if dir == 'c' {
			return frameOf('Q', cstr(tag+randText(rng, max(0, n-6-len(tag)))))
		}
		switch rng.Intn(3) {
		case 0: // one row, a null and a value
			return frameOf('D', cat(be16(2), be32(-1), be32(max(len(tag), n-15)), []byte(tag), randBytes(rng, max(0, n-15-len(tag)))))
		case 1:
			return frameOf('C', cstr(tag+randText(rng, max(0, n-6-len(tag)))))
		default:
			return frameOf('d', cat([]byte(tag), randBytes(rng, max(0, n-5-len(tag)))))
		}
	}
	// anything at all: a random type and a random body
	if rng.Intn(8) == 0 {
		t := byte(rng.Intn(256))
		if rng.Intn(2) == 0 {
			t = knownTypes[rng.Intn(len(knownTypes))]
		}
		switch rng.Intn(4) {
		case 0:
			return frameOf(t, nil)
		case 1:
			return frameOf(t, randBytes(rng, 1+rng.Intn(12)))
		case 2:
			return frameOf(t, cat(be16(rng.Intn(1<<16)), []byte(tag), pad()))
		default:
			return frameOf(t, cat(be32(int(rng.Uint32())), []byte(tag), pad()))
		}
	}
	if dir == 'd' && rng.Intn(60) == 0 { // many columns
		n := []int{255, 256, 257, 300, 1600, 40000}[rng.Intn(6)]
		vals := [][]byte{be16(n)}
		for k := 0; k < n; k++ {
			v := []byte(tag)[:rng.Intn(3)]
			vals = append(vals, be32(len(v)), v)
		}
		vals = append(vals, []byte(tag)[:rng.Intn(2)*len(tag)])
		return frameOf('D', cat(vals...))
	}
	if dir == 'c' {
		switch rng.Intn(18) {
		case 17:
			return frameOf('X', nil) // Terminate
		case 0, 1, 2:
			return frameOf('Q', cstr("SELECT '"+tag+"'"+randText(rng, varSize(rng, prof))))
		case 3:
			return frameOf('P', cat(cstr(tag), cstr(txt()), be16(2), be32(23), be32(25)))
		case 4:
			return frameOf('B', cat(cstr(""), cstr(tag), be16(1), be16(1), be16(2), be32(-1), be32(len(tag)), []byte(tag), be16(0)))
		case 5:
			return frameOf('E', cat(cstr(tag), be32(rng.Intn(100)))) // Execute, not ErrorResponse
		case 6:
			return frameOf('D', cat([]byte{"SP"[rng.Intn(2)]}, cstr(tag))) // Describe, not DataRow
		case 7:
			return frameOf('S', nil) // Sync, not ParameterStatus
		case 8:
			return frameOf('H', nil)
		case 9:
			return frameOf('C', cat([]byte{"SP"[rng.Intn(2)]}, cstr(tag))) // Close, not CommandComplete
		case 10:
			return frameOf('d', cat([]byte(tag), pad()))
		case 11:
			if rng.Intn(2) == 0 {
				return frameOf('c', nil)
			}
			return frameOf('f', cstr(txt()))
		case 12:
			return frameOf('p', cat(cstr("SCRAM-SHA-256"), be32(len(tag)), []byte(tag))) // SASLInitialResponse
		case 13:
			return frameOf('p', []byte("c=biws,r="+tag)) // SASLResponse
		case 14:
			return frameOf('p', cstr(tag))
		case 15:
			return frameOf('F', cat(be32(rng.Intn(5000)), be16(0), be16(1), be32(len(tag)), []byte(tag), be16(1)))
		default:
			return frameOf('Q', cat(cstr(tag), []byte("after the end"))) // trailing bytes
		}
	}
	switch rng.Intn(24) {
	case 0:
		return frameOf('R', be32(0))
	case 1:
		return frameOf('R', cat(be32(5), randBytes(rng, 4)))
	case 2:
		return frameOf('R', cat(be32(8), []byte(tag)))
	case 3:
		return frameOf('R', cat(be32(10), cstr("SCRAM-SHA-256"), cstr("SCRAM-SHA-256-PLUS"), []byte{0}))
	case 4:
		return frameOf('R', cat(be32(11+rng.Intn(2)), []byte("r="+tag)))
	case 5:
		return frameOf('K', cat(be32(int(rng.Uint32())), be32(int(rng.Uint32()))))
	case 6:
		return frameOf('S', cat(cstr("application_name"), cstr(tag)))
	case 7:
		var cols [][]byte
		n := rng.Intn(4)
		for k := 0; k < n; k++ {
			cols = append(cols, cat(cstr(fmt.Sprintf("%s_%d", tag, k)), be32(int(rng.Uint32())), be16(rng.Intn(65536)), be32(int(rng.Uint32())), be16(-1), be32(-1), be16(rng.Intn(2))))
		}
		return frameOf('T', cat(append([][]byte{be16(n)}, cols...)...))
	case 8, 9, 10:
		vals := [][]byte{be16(4), be32(-1), be32(0), cat(be32(len(tag)), []byte(tag))}
		p := pad()
		vals = append(vals, cat(be32(len(p)), p))
		return frameOf('D', cat(vals...))
	case 11:
		return frameOf('C', cstr("SELECT "+tag))
	case 12:
		return frameOf('I', nil)
	case 13:
		return frameOf("EN"[rng.Intn(2)], cat([]byte("S"), cstr([]string{"ERROR", "FATAL", "PANIC"}[rng.Intn(3)]), []byte("C"), cstr([]string{"42601", "57P01", "53300"}[rng.Intn(3)]), []byte("M"), cstr(txt()), []byte{0}))
	case 14:
		return frameOf('v', cat(be32(0), be32(2), cstr("_pq_."+tag), cstr("_pq_.b")))
	case 15:
		return frameOf('Z', []byte{"ITE"[rng.Intn(3)]})
	case 16:
		return frameOf("nst123IcW"[rng.Intn(9)], nil)
	case 17:
		return frameOf('A', cat(be32(7), cstr(tag), cstr("payload")))
	case 18:
		return frameOf("GHW"[rng.Intn(3)], cat([]byte{0}, be16(1), be16(0), []byte(tag)))
	case 19:
		return frameOf('d', cat([]byte(tag), pad()))
	case 20:
		return frameOf('V', cat(be32(len(tag)), []byte(tag)))
	case 21:
		return frameOf('t', cat(be16(1), be32(25)))
	case 22:
		return frameOf('D', be16(0))
	default:
		return frameOf('C', cat(cstr(tag), []byte{1, 2, 3})) // trailing bytes
	}
}

func startupPacket(version int, params [][2]string, terminate bool) []byte {
	b := be32(version)
	for _, p := range params {
		b = cat(b, cstr(p[0]), cstr(p[1]))
	}
	if terminate {
		b = append(b, 0)
	}
	return cat(be32(len(b)+4), b)
}

var sslPacket = cat(be32(8), be32(80877103))

// genStartup builds a startup packet of the given kind.
func genStartup(rng *rand.Rand, s int, kind string, dbs []string) []byte {
	user := fmt.Sprintf("u%d_%x", s, rng.Uint32())
	params := [][2]string{{"user", user}}
	if rng.Intn(5) == 0 { // a user who is called like a database; something else tells the session
		params[0][1] = []string{"d1", "d2", "postgres", ""}[rng.Intn(4)]
		params = append(params, [2]string{"application_name", user})
	}
	for _, d := range dbs {
		params = append(params, [2]string{"database", d})
	}
	for i := rng.Intn(4); i > 0; i-- {
		var p [2]string
		switch rng.Intn(10) {
		case 9:
			if rng.Intn(3) != 0 {
				continue
			}
			p = [2]string{"options", randText(rng, []int{1000, 4080, 9000, 20000}[rng.Intn(4)]+rng.Intn(40))}
		case 0:
			p = [2]string{"application_name", randText(rng, rng.Intn(30))}
		case 1:
			p = [2]string{"client_encoding", "UTF8"}
		case 2:
			p = [2]string{"options", "-c geqo=off"}
		case 3:
			p = [2]string{"datab", "d1"}
		case 4:
			p = [2]string{"Database", "d2"}
		case 5:
			p = [2]string{"databases", "d1"}
		case 6:
			p = [2]string{"dbname", "d1"}
		case 7:
			p = [2]string{randText(rng, 1+rng.Intn(10)), randText(rng, rng.Intn(300))}
		default:
			p = [2]string{"empty", ""}
		}
		if p[0] == "database" || p[0] == "user" {
			continue
		}
		params = append(params, p)
	}
	// keep the relative order of the database parameters, mix in the others
	for n := len(params) - 1; n > 0; n-- {
		m := rng.Intn(n + 1)
		if params[n][0] != "database" && params[m][0] != "database" {
			params[n], params[m] = params[m], params[n]
		} else if params[n][0] != params[m][0] && m == n-1 {
			params[n], params[m] = params[m], params[n]
		}
	}
	if rng.Intn(3) == 0 { // databases first
		var a, b [][2]string
		for _, p := range params {
			if p[0] == "database" {
				a = append(a, p)
			} else {
				b = append(b, p)
			}
		}
		params = append(a, b...)
	}
	switch kind {
	case "ssl":
		return sslPacket
	case "v3":
		return startupPacket(196608, params, true)
	case "other":
		switch rng.Intn(6) {
		case 0:
			return cat(be32(16), be32(80877102), be32(rng.Intn(1<<20)), be32(int(rng.Uint32()))) // cancel
		case 1:
			return cat(be32(8), be32(80877104)) // GSS encryption
		case 2:
			return startupPacket(131072, params, true)
		case 3:
			return startupPacket(196609+rng.Intn(3), params, true)
		case 4:
			return startupPacket(0, params, true)
		default:
			return startupPacket([]int{1 << 24, 196607, 196608 + 1<<16, -196608, 80877105, 3}[rng.Intn(6)], params, true)
		}
	case "bad":
		good := startupPacket(196608, params, true)
		switch rng.Intn(7) {
		case 0: // no terminator
			return startupPacket(196608, params, false)
		case 1: // name without value, no terminator
			b := cat(be32(196608), cstr("database"))
			return cat(be32(len(b)+4), b)
		case 2: // length below the header's own size
			return cat(be32(rng.Intn(4)), good[4:])
		case 3: // negative length
			return cat(be32(-1-rng.Intn(1000)), good[4:])
		case 4: // no room for a version
			n := rng.Intn(4)
			return cat(be32(4+n), good[4:4+n])
		case 5: // bytes after the terminator
			b := cat(good[4:], []byte("x"))
			return cat(be32(len(b)+4), b)
		default: // another startup's worth of parameters after the terminator
			b := cat(good[4:], cstr("database"), cstr("d2"), []byte{0})
			return cat(be32(len(b)+4), b)
		}
	}
	panic("startup kind " + kind)
}

// wildStartup is anything in place of a startup packet.
func wildStartup(rng *rand.Rand, pkt []byte) []byte {
	switch rng.Intn(7) {
	case 0:
		return randBytes(rng, rng.Intn(40))
	case 1: // a declared length and random bytes
		n := rng.Intn(30)
		return cat(be32(n+4), randBytes(rng, n))
	case 2: // more is promised than anybody will send
		return cat(be32([]int{1 << 20, 1 << 24, 1<<31 - 1, 70000}[rng.Intn(4)]), pkt[4:])
	case 3: // some byte is wrong
		b := append([]byte(nil), pkt...)
		b[rng.Intn(8)] ^= byte(1 + rng.Intn(255)) // of the length or the version
		return b
	case 4: // SSL requests that are not
		return cat(be32(9), be32(80877103), []byte{byte(rng.Intn(2))})
	case 5: // SSL request with parameters
		return startupPacket(80877103, [][2]string{{"user", "u"}, {"database", "d1"}}, rng.Intn(2) == 0)
	default:
		return pkt[:rng.Intn(len(pkt))]
	}
}

// wildBytes is anything in place of messages.
func wildBytes(rng *rand.Rand) []byte {
	var out []byte
	for i := rng.Intn(4); i >= 0; i-- {
		t := knownTypes[rng.Intn(len(knownTypes))]
		switch rng.Intn(6) {
		case 0:
			out = cat(out, randBytes(rng, rng.Intn(30)))
		case 1: // counts that promise too much
			out = cat(out, frameOf(t, cat(be16([]int{-1, -32768, 32767, 255, 3}[rng.Intn(5)]), randBytes(rng, rng.Intn(10)))))
		case 2:
			out = cat(out, frameOf(t, cat(be32(rng.Intn(3)), be32([]int{-1, -1 << 31, 1<<31 - 1, 1 << 24, 3}[rng.Intn(5)]), randBytes(rng, rng.Intn(10)))))
		case 3: // sizes that promise too much
			out = cat(out, frameOf("D"[0], cat(be16(2), be32([]int{-2, -1 << 31, 1<<31 - 1, 1 << 24, 3}[rng.Intn(5)]), randBytes(rng, rng.Intn(10)))))
		case 4: // lengths
			out = cat(out, []byte{t}, be32([]int{0, 3, -1, -1 << 31, 1<<31 - 1, 1 << 24, 4}[rng.Intn(7)]), randBytes(rng, rng.Intn(10)))
		default:
			out = cat(out, frameOf(t, randBytes(rng, rng.Intn(60))))
		}
	}
	return out
}
