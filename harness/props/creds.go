package props

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"path"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	fm "finchverif/fakemysql"
	"finchverif/kit"
)

func init() {
	kit.Register(&kit.Check{
		ID:    "C20",
		Rule:  "random mysql settings for one to three stages from all sources (defaults, _all.yaml, stage, my.cnf, password file, DSN in files, --dsn, FINCH_DSN, mysql.db, --database) with random user names, passwords (all printable characters) and databases over TCP (IPv4, IPv6, host name) and sockets, with and without TLS (private CA, client certificate, skip-verify, disabled, wrong CA, wrong host name), with servers that refuse the login, and consecutive stages that differ in one setting only; every connection must have exactly the expected user, password, database, network and encryption, none may be made if the server cannot be verified, and no password may appear in the output; non-trivial: settings from at least two sources or TLS; distinct by settings",
		Floor: 100,
		Parts: []kit.Part{
			{Name: "creds", Quick: 4000, Thorough: 60000, Par: 4, Run: credsCase},
		},
	})
}

// pki is a CA, server certificates and a client certificate.
type pki struct {
	ca, otherCA          string // PEM
	good, wrongName      tls.Certificate
	clientCert           string
	clientKey            string
	clientCertPool       *x509.CertPool
	clientCertWithoutKey string
}

var pkiOnce = sync.OnceValue(func() *pki {
	p := &pki{}
	serial := int64(1)
	mk := func(cn string, isCA bool, parent *x509.Certificate, pk *ecdsa.PrivateKey, ips []net.IP, names []string) (*x509.Certificate, *ecdsa.PrivateKey, []byte) {
		key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			panic(err)
		}
		serial++
		t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: cn}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(240 * time.Hour),
			IsCA: isCA, BasicConstraintsValid: true, IPAddresses: ips, DNSNames: names,
			KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}}
		if parent == nil {
			parent, pk = t, key
		}
		der, err := x509.CreateCertificate(rand.Reader, t, parent, &key.PublicKey, pk)
		if err != nil {
			panic(err)
		}
		c, _ := x509.ParseCertificate(der)
		return c, key, der
	}
	pemOf := func(der []byte) string {
		return string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}))
	}
	ca, caKey, caDer := mk("verif-ca", true, nil, nil, nil, nil)
	_, _, otherDer := mk("other-ca", true, nil, nil, nil, nil)
	p.ca, p.otherCA = pemOf(caDer), pemOf(otherDer)
	_, k1, d1 := mk("server", false, ca, caKey, []net.IP{net.IPv4(127, 0, 0, 1), net.IPv6loopback}, []string{"localhost"})
	p.good = tls.Certificate{Certificate: [][]byte{d1}, PrivateKey: k1}
	_, k2, d2 := mk("server", false, ca, caKey, nil, []string{"db.example.com"})
	p.wrongName = tls.Certificate{Certificate: [][]byte{d2}, PrivateKey: k2}
	_, k3, d3 := mk("verif-client", false, ca, caKey, nil, nil)
	p.clientCert = pemOf(d3)
	kb, _ := x509.MarshalECPrivateKey(k3)
	p.clientKey = string(pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}))
	p.clientCertPool = x509.NewCertPool()
	p.clientCertPool.AddCert(ca)
	return p
})

type credStage struct {
	file              string
	user, pass, db    string
	encrypted, client bool
	use               string
	unix              bool
}

var haveV6 = sync.OnceValue(func() bool {
	ln, err := net.Listen("tcp6", "[::1]:0")
	if err == nil {
		ln.Close()
	}
	return err == nil
})

func credsCase(t *kit.T) {
	r := t.R
	word := func(n int) string {
		const al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
		b := make([]byte, n)
		for i := range b {
			b[i] = al[r.IntN(len(al))]
		}
		return "Q" + string(b) // no human number
	}
	secrets := []string{}
	secret := func(kind string) string {
		s := "zQ" + word(6)
		switch kind {
		case "any": // any characters (no $: it is a variable)
			const sp = "!\"#%&'()*+,-./:;<=>?@[\\]^_`{|}~ é"
			rs := []rune(sp)
			for i := r.Int(1, 5); i > 0; i-- {
				k := r.IntN(len(s) + 1)
				for k > 0 && k < len(s) && s[k]&0xc0 == 0x80 {
					k--
				}
				s = s[:k] + string(rs[r.IntN(len(rs))]) + s[k:]
			}
		case "ini":
			s += kit.Pick(r, "", "@x", "/x", ":x", "=x", "&x?", "!x", "%x", "a b")
		case "dsn": // a DSN has no escapes
			s += kit.Pick(r, "", "x!", "#x", "*x", "x=y", "x:y", "x@y", "x&y")
		}
		secrets = append(secrets, s)
		return s
	}
	sc := &kit.Scenario{Files: map[string]string{}, Timeout: 60 * time.Second}
	if r.P(0.25) {
		sc.Net = "unix"
	}
	unix := sc.Net == "unix"
	v6 := !unix && r.P(0.15) && haveV6()
	if v6 {
		sc.Net = "tcp6"
	}
	// TLS of this scenario's server
	tlsMode := "none"
	if r.P(0.35) {
		tlsMode = kit.Pick(r, "ok", "ok", "ok", "wrong-name", "wrong-ca", "server-only")
	}
	pk := pkiOnce()
	if tlsMode != "none" {
		c := &tls.Config{Certificates: []tls.Certificate{pk.good}, ClientAuth: tls.VerifyClientCertIfGiven, ClientCAs: pk.clientCertPool}
		if tlsMode == "wrong-name" {
			c.Certificates = []tls.Certificate{pk.wrongName}
		}
		sc.TLS = c
		sc.Files["tls/ca.pem"] = pk.ca
		if tlsMode == "wrong-ca" {
			sc.Files["tls/ca.pem"] = pk.otherCA
		}
		sc.Files["tls/cert.pem"], sc.Files["tls/key.pem"] = pk.clientCert, pk.clientKey
	}
	sysCA := r.P(0.5)
	if tlsMode != "none" && sysCA {
		sc.Env = append(sc.Env, "SSL_CERT_FILE={{DIR}}/tls/ca.pem")
	}
	sources := map[string]bool{}
	netAddr := func() (net, addr string) {
		if unix {
			return "unix", "{{SOCK}}"
		}
		return "tcp", "{{ADDR}}"
	}
	dsnOf := func(user, pass, db string) string {
		n, a := netAddr()
		cred := user
		if pass != "" {
			cred += ":" + pass
		}
		if cred != "" {
			cred += "@"
		}
		return fmt.Sprintf("%s%s(%s)/%s", cred, n, a, db)
	}
	// command line
	var cli *credStage
	if r.P(0.2) {
		cli = &credStage{user: word(4), pass: secret("dsn"), db: kit.Pick(r, "", word(3)), unix: unix}
		if r.P(0.2) {
			cli.pass = ""
		}
		sources["cli"] = true
		switch r.IntN(3) {
		case 0:
			sc.Args = append(sc.Args, "--dsn", dsnOf(cli.user, cli.pass, cli.db))
		case 1:
			sc.Args = append(sc.Args, "--dsn="+dsnOf(cli.user, cli.pass, cli.db))
			sc.Env = append(sc.Env, "FINCH_DSN="+dsnOf("wrong", secret("dsn"), "wrong"))
		case 2:
			sc.Env = append(sc.Env, "FINCH_DSN="+dsnOf(cli.user, cli.pass, cli.db))
		}
	}
	cliDb := ""
	if cli == nil && r.P(0.2) {
		cliDb = word(4)
		sc.Args = append(sc.Args, kit.Pick(r, "-D", "--database"), cliDb)
		sources["database"] = true
	}
	refuse := r.P(0.08)
	mustFail := refuse
	nStages := r.Int(1, 3)
	var stages []*credStage
	lastSQL := ""
	for k := 0; k < nStages && !mustFail || k == 0; k++ {
		dir := kit.Pick(r, ".", fmt.Sprintf("dir%d", k))
		if k > 0 {
			dir = fmt.Sprintf("dir%d", k)
		}
		s := &credStage{file: path.Join(dir, fmt.Sprintf("s%d.yaml", k))}
		fileRef := func(name string) string { // relative to the stage file, or absolute
			if r.P(0.5) {
				return "{{DIR}}/" + path.Join(dir, name)
			}
			return name
		}
		stage, all, ini := map[string]string{}, map[string]string{}, map[string]string{}
		stageTLS, allTLS := map[string]string{}, map[string]string{}
		put := func(key, v, wrong string, canIni string) {
			// v wins; wrong in sources of lower precedence
			switch r.IntN(3) {
			case 0:
				stage[key] = v
				sources["stage"] = true
				if r.P(0.3) {
					all[key] = wrong
				}
				if canIni != "" && r.P(0.3) {
					ini[canIni] = wrong
				}
			case 1:
				all[key] = v
				sources["all"] = true
				if canIni != "" && r.P(0.3) {
					ini[canIni] = wrong
				}
			case 2:
				if canIni == "" {
					all[key] = v
					sources["all"] = true
				} else {
					ini[canIni] = v
					sources["mycnf"] = true
				}
			}
		}
		named := "" // hostname with a socket
		if dsn := r.P(0.2); dsn {
			s.user, s.pass, s.db = word(5), secret("dsn"), kit.Pick(r, "", word(3))
			s.unix = unix
			if r.P(0.3) {
				s.pass = ""
			}
			put("dsn", dsnOf(s.user, s.pass, s.db), dsnOf("wrong", "wrong", "wrong"), "")
			if r.P(0.4) { // ignored
				stage["hostname"], stage["username"], stage["password"] = "127.0.0.1:1", "wrong", secret("any")
			}
		} else {
			if unix {
				put("socket", "{{SOCK}}", "/no/such.sock", "socket")
				s.unix = true
				if r.P(0.3) { // only the name that the certificate is for
					named = kit.Pick(r, "127.0.0.1", "127.0.0.1:1", "otherhost")
					put("hostname", named, "wrong", "")
				}
				if r.P(0.3) { // not used
					ini["port"] = "1"
				}
			} else {
				switch n := r.IntN(4); {
				case v6 && n == 0: // MySQL takes the address without brackets, too
					ini["host"], ini["port"] = kit.Pick(r, "::1", "[::1]"), "{{PORT}}"
					sources["mycnf"], sources["ipv6"] = true, true
				case v6:
					put("hostname", "{{ADDR}}", "127.0.0.1:1", "")
					sources["ipv6"] = true
				case n == 0:
					ini["host"], ini["port"] = "127.0.0.1", "{{PORT}}"
					sources["mycnf"] = true
				default:
					put("hostname", kit.Pick(r, "{{ADDR}}", "127.0.0.1:{{PORT}}", "localhost:{{PORT}}"), "127.0.0.1:1", "")
				}
			}
			if r.P(0.7) {
				s.user = word(4)
				put("username", s.user, "wrong", "user")
			}
			switch r.IntN(5) {
			case 0, 1: // plain password
				kind := "any"
				before := len(ini)
				s.pass = secret("any")
				put("password", s.pass, "wrongpw", "password")
				if len(ini) > before && ini["password"] == s.pass {
					s.pass = secret("ini")
					ini["password"] = s.pass
				}
				_ = kind
			case 2, 3: // password file
				s.pass = secret("any")
				if r.P(0.2) {
					s.pass = secret("any") + "$x"
					secrets = append(secrets, s.pass)
				}
				f := kit.Pick(r, "pw", "sub/pw.txt")
				sc.Files[path.Join(dir, f)] = s.pass + kit.Pick(r, "", "\n", "\r\n")
				put("password-file", fileRef(f), "/no/such/file", "")
				sources["pwfile"] = true
			default:
				if s.user == "" {
					s.pass = "amazing"
				}
			}
			if s.user == "" {
				s.user = "finch"
			}
			if r.P(0.4) {
				s.db = word(4)
				if r.P(0.2) {
					s.db = kit.Pick(r, "my-db", "a.b", "x_y", "db=1", "a b", "d%b", "a&b", "é", "db#1")
				}
				put("db", s.db, "wrongdb", "")
			}
			if cliDb != "" {
				s.db = cliDb
			}
			if tlsMode != "none" && tlsMode != "server-only" && r.P(0.85) {
				sources["tls"] = true
				s.encrypted = true
				putTLS := func(key, v string, canIni string) {
					switch n := r.IntN(3); {
					case n == 0:
						stageTLS[key] = v
					case n == 1 || canIni == "":
						allTLS[key] = v
					default:
						ini[canIni] = v
						if unix {
							ini["ssl-mode"] = "REQUIRED"
						}
					}
				}
				ca := r.P(0.7)
				cert := r.P(0.4) || !ca
				skip := r.P(0.3)
				// Config.TLS.Set needs a file
				if ca {
					putTLS("ca", "{{DIR}}/tls/ca.pem", "ssl-ca")
				}
				if cert {
					putTLS("cert", "{{DIR}}/tls/cert.pem", "ssl-cert")
					putTLS("key", "{{DIR}}/tls/key.pem", "ssl-key")
					s.client = true
				}
				if skip {
					putTLS("skip-verify", kit.Pick(r, "true", "true", "yes"), "")
				} else if r.P(0.2) { // explicitly off
					putTLS("skip-verify", kit.Pick(r, "false", "no"), "")
				}
				if r.P(0.15) { // stage overrides _all.yaml
					stageTLS["skip-verify"], allTLS["skip-verify"] = fmt.Sprint(skip), fmt.Sprint(!skip)
				}
				if stageTLS["disable"] == "" && r.P(0.12) {
					stageTLS["disable"] = "true"
					s.encrypted, s.client = false, false
				}
				// without a CA file, the CA certificates of the system verify the server
				if s.encrypted && !skip && !unix && (tlsMode != "ok" || !ca && !sysCA) && cli == nil {
					mustFail = true
				}
				if s.encrypted && !skip && unix && named != "" && (tlsMode != "ok" || !ca && !sysCA || named == "otherhost") && cli == nil {
					mustFail = true // without a host name, verification is turned off
				}
			}
		}
		if cli != nil {
			f := s.file
			*s = *cli
			s.file = f
		}
		if len(ini) > 0 || r.P(0.05) {
			var b strings.Builder
			b.WriteString(kit.Pick(r, "", "# comment\n[mysqld]\nport=1\nuser=wrong\nskip-networking\n\n") + "[client]\n")
			keys := []string{}
			for k := range ini {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				fmt.Fprintf(&b, "%s%s%s\n", k, kit.Pick(r, "=", " = "), ini[k])
			}
			b.WriteString(kit.Pick(r, "", "\n[mysql]\nuser=wrong\npassword=wrong\n"))
			sc.Files[path.Join(dir, "my.cnf")] = b.String()
			if r.P(0.5) {
				stage["mycnf"] = fileRef("my.cnf")
				if r.P(0.3) {
					all["mycnf"] = "/no/such/my.cnf"
				}
			} else {
				all["mycnf"] = fileRef("my.cnf")
			}
		}
		section := func(m, tl map[string]string, by string) string {
			if len(m)+len(tl) == 0 {
				return ""
			}
			keys := []string{}
			for k := range m {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			var b strings.Builder
			b.WriteString(by + "mysql:\n")
			for _, k := range keys {
				v := strconv.QuoteToGraphic(m[k])
				fmt.Fprintf(&b, "%s  %s: %s\n", by, k, v)
			}
			if len(tl) > 0 {
				b.WriteString(by + "  tls:\n")
				keys = nil
				for k := range tl {
					keys = append(keys, k)
				}
				sort.Strings(keys)
				for _, k := range keys {
					fmt.Fprintf(&b, "%s    %s: %s\n", by, k, tl[k])
				}
			}
			return b.String()
		}
		if y := section(all, allTLS, ""); y != "" {
			sc.Files[path.Join(dir, "_all.yaml")] = y
		}
		y := "stage:\n" + section(stage, stageTLS, "  ") + fmt.Sprintf("  trx:\n    - file: t%d.sql\n  workload:\n    - iter: 1\n      clients: %d\n", k, r.Int(1, 2))
		if r.P(0.3) {
			s.use = word(3)
			y += "      db: " + s.use + "\n"
		}
		if cliDb != "" {
			s.use = cliDb
		}
		sc.Files[s.file] = y
		sc.Files[path.Join(dir, fmt.Sprintf("t%d.sql", k))] = fmt.Sprintf("SELECT %d\n", k)
		lastSQL = fmt.Sprintf("SELECT %d", k)
		run := []*credStage{s}
		if stage["dsn"]+all["dsn"] == "" && cli == nil && !mustFail && r.P(0.4) {
			// another stage that differs only in one setting
			u := *s
			u.file = path.Join(dir, fmt.Sprintf("u%d.yaml", k))
			st, tl := map[string]string{}, map[string]string{}
			for k, v := range stage {
				st[k] = v
			}
			for k, v := range stageTLS {
				tl[k] = v
			}
			switch n := r.IntN(4); {
			case n == 0 && s.encrypted:
				tl["disable"] = "true"
				u.encrypted, u.client = false, false
				sources["twin-tls"] = true
			case n == 1 && cliDb == "":
				u.db = word(5)
				st["db"] = u.db
				sources["twin-db"] = true
			case n == 2 && s.user != "finch":
				u.user = word(5)
				st["username"] = u.user
				sources["twin-user"] = true
			default:
				u.pass = secret("any")
				if stage["password-file"]+all["password-file"] != "" {
					sc.Files[path.Join(dir, "pw2")] = u.pass
					st["password-file"] = fileRef("pw2")
				} else {
					st["password"] = u.pass
				}
				sources["twin-password"] = true
			}
			if u.use = ""; cliDb != "" {
				u.use = cliDb
			}
			sc.Files[u.file] = "stage:\n" + section(st, tl, "  ") + fmt.Sprintf("  trx:\n    - file: t%d.sql\n  workload:\n    - iter: 1\n", k)
			if run = append(run, &u); r.P(0.5) {
				run[0], run[1] = run[1], run[0]
			}
		}
		for _, s := range run {
			stages = append(stages, s)
			if r.P(0.2) {
				sc.Args = append(sc.Args, "{{DIR}}/"+s.file)
			} else {
				sc.Args = append(sc.Args, s.file)
			}
		}
	}
	errText := kit.Pick(r, "Access denied for user", "boom")
	sc.Handler = func(s *fm.Server, ev *fm.Event) fm.Reply {
		if ev.Kind == "connect" && refuse {
			return fm.Reply{ErrCode: kit.Pick(kit.NewRand(1, fmt.Sprint(t.I)), uint16(1045), 1049, 1040), ErrMsg: errText}
		}
		return okReply(ev)
	}
	res := t.RunOK(sc, "creds")
	if res == nil {
		return
	}
	det := kit.Detail(sc, res)
	for _, s := range secrets {
		if strings.Contains(res.Out, s) {
			t.Fail("creds:leak", fmt.Sprintf("password %q is in the output: %s", s, kit.Tail(res.Out, 400)), det)
			return
		}
		for f, text := range res.Dir {
			if strings.Contains(text, s) {
				t.Fail("creds:leak", fmt.Sprintf("password %q was written to file %s", s, f), det)
				return
			}
		}
	}
	if mustFail {
		reached, last := 0, lastSQL
		for _, e := range res.Events {
			if e.Kind == "ping" {
				reached++
			}
			if e.Kind == "query" && e.SQL == last {
				t.Fail("creds:verify", fmt.Sprintf("statement %q on a connection that must fail (refused: %v, TLS: %s)", e.SQL, refuse, tlsMode), det)
				return
			}
		}
		if reached >= len(stages) {
			t.Fail("creds:verify", fmt.Sprintf("a connection was made that must fail (refused: %v, TLS: %s)", refuse, tlsMode), det)
			return
		}
		if res.Exit == 0 {
			t.Fail("creds:exit", "finch could not connect but exits 0", det)
			return
		}
		t.Count("must_fail", 1)
		t.Eval(fmt.Sprint(sc.Files, sc.Args), true)
		return
	}
	if res.Exit != 0 {
		t.Fail("creds:exit", fmt.Sprintf("finch failed (exit %d): %s", res.Exit, kit.Tail(res.Out, 600)), det)
		return
	}
	tests := map[int]bool{}
	for _, e := range res.Events {
		if e.Kind == "ping" {
			tests[e.Conn] = true
		}
	}
	k := -1
	nConn := 0
	for _, e := range res.Events {
		if e.Kind == "query" && k >= 0 {
			if strings.HasPrefix(e.SQL, "USE ") != (strings.HasPrefix(e.SQL, "USE `"+stages[k].use+"`")) {
				t.Fail("creds:use", fmt.Sprintf("stage %d: %s, database %q is configured", k, e.SQL, stages[k].use), det)
				return
			}
		}
		if e.Kind != "connect" {
			continue
		}
		if tests[e.Conn] {
			k++
		}
		if k < 0 || k >= len(stages) {
			t.Fail("creds:stages", "unexpected connection", det)
			return
		}
		s := stages[k]
		nConn++
		if string(e.Auth) != string(fm.Scramble(e.Salt, s.pass)) {
			t.Fail("creds:password", fmt.Sprintf("stage %d (%s): user %q connected with a wrong password, expected %q", k, s.file, e.User, s.pass), det)
			return
		}
		if e.User != s.user || e.DB != s.db {
			t.Fail("creds:user", fmt.Sprintf("stage %d (%s): connected as user %q to database %q, expected %q, %q", k, s.file, e.User, e.DB, s.user, s.db), det)
			return
		}
		if e.TLS != s.encrypted || (e.Cert == "verif-client") != s.client {
			t.Fail("creds:tls", fmt.Sprintf("stage %d (%s): connection encrypted: %v, client certificate %q; expected %v, %v", k, s.file, e.TLS, e.Cert, s.encrypted, s.client), det)
			return
		}
	}
	if k != len(stages)-1 {
		t.Fail("creds:stages", fmt.Sprintf("%d stages connected, expected %d", k+1, len(stages)), det)
		return
	}
	t.Count("connections_checked", nConn)
	for s := range sources {
		t.Count("source_"+s, 1)
	}
	t.Eval(fmt.Sprint(sc.Files, sc.Args), len(sources) > 1)
	t.Sample(map[string]interface{}{"files": sc.Files, "args": sc.Args, "env": sc.Env})
}
