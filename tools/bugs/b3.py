def e2e(files, args, body, h="nil"):
    import json
    fs = "".join(f"\t\t{json.dumps(k)}: {json.dumps(v)},\n" for k, v in files.items())
    return MAIN + '''func main() {
	r := Run(Sc{Files: map[string]string{
''' + fs + '''	}, Args: []string{''' + ", ".join(json.dumps(a) for a in args) + '''}, H: ''' + h + '''})
	_ = r
''' + body + "}\n"
M = "  mysql:\n    hostname: {{ADDR}}\n"
bug("C20-default-pass", "C20", "a password file or password without a user name",
 "the default password replaces a password from a password file when no user name is set",
 [("dbconn/factory.go", 'if f.cfg.Password == "" && password == "" {', 'if f.cfg.Password == "" {')],
 main=e2e({"pw": "s3cret\n", "s.yaml": "stage:\n"+M+"    password-file: pw\n  trx:\n    - file: a.sql\n  workload:\n    - iter: 1\n", "a.sql": "INSERT INTO t VALUES (1)\n"}, ["s.yaml"],
 '''	n := 0
	for _, e := range r.Ev {
		if e.Kind == "connect" {
			n++
			if string(e.Auth) != string(Scramble(e.Salt, "s3cret")) {
				Fail("wrong password\\n%s", r.Out)
			}
		}
	}
	if n == 0 {
		Fail("no connection\\n%s", r.Out)
	}
'''))
bug("C10-insertid-zero", "C10", "an INSERT that saves its insert id and, in a later iteration, inserts no row (insert id 0)",
 "an insert id of 0 is not saved: later statements use the insert id of an older row",
 [("client/client.go", "					c.Data[i].InsertId.Scan(id)\n", "					if id > 0 {\n						c.Data[i].InsertId.Scan(id)\n					}\n")],
 main=e2e({"s.yaml": "stage:\n"+M+"  trx:\n    - file: a.sql\n      data:\n        id:\n          generator: column\n  workload:\n    - clients: 1\n      iter: 3\n", "a.sql": "-- save-insert-id: @id\nINSERT IGNORE INTO t VALUES (1)\n\nUPDATE t SET a=@id\n"}, ["s.yaml"],
 '''	want := []string{"a=70", "a=0", "a=70"}
	k := 0
	for _, s := range r.Stmts() {
		if strings.HasPrefix(s, "UPDATE") {
			if k >= 3 || !strings.HasSuffix(strings.TrimSpace(s), want[k]) {
				Fail("update %d: %s, expected %s", k, s, want[k])
			}
			k++
		}
	}
	if k != 3 {
		Fail("%d updates\\n%s", k, r.Out)
	}
''', '''func(s *Server, ev *Event) Reply {
		if strings.HasPrefix(ev.SQL, "INSERT") {
			if ins++; ins == 2 {
				return Reply{}
			}
			return Reply{Affected: 1, InsertID: 70}
		}
		return OKReply(s, ev)
	}''').replace("func main", "var ins int\n\nfunc main"))
bug("C14-failed-select", "C14", "SELECT statements that fail",
 "a SELECT that fails is not counted in the statistics",
 [("client/client.go", "				if c.Stats[trxNo] != nil {\n					c.Stats[trxNo].Record(stats.READ, time.Now().Sub(t).Microseconds())\n				}\n				if err != nil {\n					goto ERROR\n				}\n", "				if err != nil {\n					goto ERROR\n				}\n				if c.Stats[trxNo] != nil {\n					c.Stats[trxNo].Record(stats.READ, time.Now().Sub(t).Microseconds())\n				}\n")],
 main=e2e({"s.yaml": "stage:\n  runtime: 2s\n  stats:\n    report:\n      csv:\n        file: {{DIR}}/out.csv\n"+M+"  trx:\n    - file: a.sql\n  workload:\n    - clients: 1\n", "a.sql": "SELECT a FROM t\n"}, ["s.yaml"],
 '''	b, err := os.ReadFile(r.Dir + "/out.csv")
	if err != nil {
		Fail("%v\\n%s", err, r.Out)
	}
	l := strings.Split(strings.TrimSpace(string(b)), "\\n")
	f := strings.Split(l[len(l)-1], ",")
	q, _ := strconv.Atoi(f[4])
	if sent := r.Count("SELECT"); q < sent/4 || sent < 20 {
		Fail("%d QPS reported, %d statements in 2s\\n%s", q, sent, b)
	}
''', '''func(s *Server, ev *Event) Reply {
		if strings.HasPrefix(ev.SQL, "SELECT") {
			time.Sleep(10 * time.Millisecond)
			return Reply{ErrCode: 1213, ErrMsg: "Deadlock"}
		}
		return OKReply(s, ev)
	}''').replace('import (\n', 'import (\n\t"os"\n\t"strconv"\n'))
bug("C04-group-outlives-stage", "C04", "execution groups, a stage runtime, and a client group with a longer runtime in a later execution group",
 "the runtime of a client group is not bounded by the runtime of the stage, so an execution group starts after the stage has ended",
 [("stage/stage.go", "context.WithDeadline(ctxStage, time.Now().Add(s.execGroups", "context.WithDeadline(ctxFinch, time.Now().Add(s.execGroups")],
 main=e2e({"s.yaml": "stage:\n  runtime: 1s\n"+M+"  trx:\n    - file: a.sql\n    - file: b.sql\n  workload:\n    - clients: 1\n      group: one\n      trx: [a.sql]\n    - clients: 2\n      group: two\n      runtime: 10s\n      trx: [b.sql]\n", "a.sql": "INSERT INTO a VALUES (1)\n", "b.sql": "INSERT INTO b VALUES (1)\n"}, ["s.yaml"],
 '''	if a, b := r.Count("INTO a"), r.Count("INTO b"); a == 0 || b != 0 {
		Fail("%d and %d statements, expected none of the second execution group\\n%s", a, b, r.Out)
	}
''', '''func(s *Server, ev *Event) Reply {
		if strings.HasPrefix(ev.SQL, "INSERT") {
			time.Sleep(time.Millisecond)
		}
		return OKReply(s, ev)
	}'''))
