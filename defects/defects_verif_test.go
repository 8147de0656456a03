package soju

// Demonstrations of the genuine defects recorded in known-findings.json. Each
// test fails on the original tree. Run with run.sh; not part of any check.

import (
	"context"
	"crypto/sha512"
	"crypto/tls"
	"crypto/x509"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"io"
	"net"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/auth"
	"codeberg.org/emersion/soju/database"
	"codeberg.org/emersion/soju/fileupload"
	"codeberg.org/emersion/soju/msgstore"
	"codeberg.org/emersion/soju/xirc"
)

func startVerif(t *testing.T, db database.Database) *Server {
	srv := NewServer(db)
	srv.Logger = newDebugLogger(t)
	if err := srv.Start(); err != nil {
		t.Fatal(err)
	}
	return srv
}

func within(t *testing.T, what string, f func()) {
	t.Helper()
	ch := make(chan struct{})
	go func() { f(); close(ch) }()
	select {
	case <-ch:
	case <-time.After(5 * time.Second):
		t.Fatalf("timed out: %v", what)
	}
}

// An upstream server sends a line the IRC parser panics on.
func TestDefect_UpstreamPanic(t *testing.T) {
	db := createTempSqliteDB(t)
	user := createTestUser(t, db)
	_, ln := createTestUpstream(t, db, user)
	defer ln.Close()
	srv := startVerif(t, db)
	_ = srv
	c, err := ln.Accept()
	if err != nil {
		t.Fatal(err)
	}
	c.Write([]byte("@a \r\n"))
	time.Sleep(time.Second) // the process dies here
}

// A client sends such a line after registration: its session is never removed.
func TestDefect_DownstreamPanicLeak(t *testing.T) {
	db := createTempSqliteDB(t)
	user := createTestUser(t, db)
	network, ln := createTestUpstream(t, db, user)
	defer ln.Close()
	srv := startVerif(t, db)
	uc := mustAccept(t, ln)
	registerUpstreamConn(t, uc)
	c1, c2 := net.Pipe()
	go srv.Handle(newNetIRCConn(c1))
	dc := newNetIRCConn(c2)
	registerDownstreamConn(t, dc, network)
	roundtrip(t, dc)
	c2.Write([]byte("@a \r\n"))
	c2.Close()
	time.Sleep(500 * time.Millisecond)
	if n := srv.getUser(testUsername).numDownstreamConns.Load(); n != 0 {
		t.Fatalf("%v sessions remain", n)
	}
}

// Attach to a channel whose NAMES reply is not complete yet.
func TestDefect_AttachIncomplete(t *testing.T) {
	db := createTempSqliteDB(t)
	user := createTestUser(t, db)
	network, ln := createTestUpstream(t, db, user)
	defer ln.Close()
	db.StoreChannel(context.Background(), network.ID, &database.Channel{Name: "#a", Detached: true})
	srv := startVerif(t, db)
	uc := mustAccept(t, ln)
	registerUpstreamConn(t, uc)
	dc := createTestDownstream(t, srv)
	registerDownstreamConn(t, dc, network)
	roundtrip(t, dc)
	uc.WriteMessage(&irc.Message{Prefix: &irc.Prefix{Name: testUsername}, Command: "JOIN", Params: []string{"#a"}})
	time.Sleep(200 * time.Millisecond)
	dc.WriteMessage(&irc.Message{Command: "JOIN", Params: []string{"#a"}})
	time.Sleep(500 * time.Millisecond)
	if srv.getUser(testUsername) == nil {
		t.Fatal("the user's goroutine died")
	}
}

// A client is disabled while it is being handed over to its user.
func TestDefect_DisabledUserMessage(t *testing.T) {
	db := createTempSqliteDB(t)
	user := createTestUser(t, db)
	user.Enabled = false
	db.StoreUser(context.Background(), user)
	srv := startVerif(t, db)
	u := srv.getUser(testUsername)
	c1, c2 := net.Pipe()
	go func() {
		b := make([]byte, 1000)
		for {
			if _, err := c2.Read(b); err != nil {
				return
			}
		}
	}()
	dc := newDownstreamConn(srv, newNetIRCConn(c1), 1234)
	dc.registration.authUsername = testUsername
	dc.registered = true
	u.events <- eventDownstreamConnected{dc}
	u.events <- eventDownstreamMessage{&irc.Message{Command: "NICK", Params: []string{"x"}}, dc}
	time.Sleep(500 * time.Millisecond)
	if srv.getUser(testUsername) == nil {
		t.Fatal("the user's goroutine died")
	}
}

// A user deletes their own account.
func TestDefect_SelfDelete(t *testing.T) {
	db := createTempSqliteDB(t)
	user := createTestUser(t, db)
	user.Admin = true
	db.StoreUser(context.Background(), user)
	network, ln := createTestUpstream(t, db, user)
	defer ln.Close()
	srv := startVerif(t, db)
	uc := mustAccept(t, ln)
	registerUpstreamConn(t, uc)
	dc := createTestDownstream(t, srv)
	registerDownstreamConn(t, dc, network)
	roundtrip(t, dc)
	var tok string
	for i := 0; i < 2; i++ {
		text := "user delete " + testUsername
		if tok != "" {
			text += " " + tok
		}
		dc.WriteMessage(&irc.Message{Command: "PRIVMSG", Params: []string{"BouncerServ", text}})
		if tok == "" {
			for {
				m, err := dc.ReadMessage()
				if err != nil {
					t.Fatal(err)
				}
				if m.Command == "PRIVMSG" {
					t.Log(m)
					f := m.Params[1]
					f = f[len(f)-1-6:]
					tok = f[:6]
					break
				}
			}
		}
	}
	go func() {
		for {
			if _, err := dc.ReadMessage(); err != nil {
				return
			}
		}
	}()
	deadline := time.Now().Add(5 * time.Second)
	for srv.getUser(testUsername) != nil {
		if time.Now().After(deadline) {
			t.Fatal("user never stopped")
		}
		time.Sleep(50 * time.Millisecond)
	}
}

// Client restarts SASL while the first exchange is pending upstream.
func TestDefect_SaslRestart(t *testing.T) {
	db := createTempSqliteDB(t)
	user := createTestUser(t, db)
	network, ln := createTestUpstream(t, db, user)
	defer ln.Close()
	srv := startVerif(t, db)
	uc := mustAccept(t, ln)
	expectMessage(t, uc, "CAP")
	expectMessage(t, uc, "NICK")
	expectMessage(t, uc, "USER")
	p := testServerPrefix
	uc.WriteMessage(&irc.Message{Prefix: p, Command: "CAP", Params: []string{"*", "LS", "sasl=PLAIN"}})
	m := expectMessage(t, uc, "CAP")
	t.Log(m)
	uc.WriteMessage(&irc.Message{Prefix: p, Command: "CAP", Params: []string{"*", "ACK", "sasl"}})
	expectMessage(t, uc, "CAP") // END
	for _, c := range []string{"001", "002", "003"} {
		uc.WriteMessage(&irc.Message{Prefix: p, Command: c, Params: []string{testUsername, "x"}})
	}
	uc.WriteMessage(&irc.Message{Prefix: p, Command: "004", Params: []string{testUsername, "s", "soju", "aiwroO", "OovaimnqpsrtklbeI"}})
	uc.WriteMessage(&irc.Message{Prefix: p, Command: "422", Params: []string{testUsername, "x"}})
	go func() {
		for {
			m, err := uc.ReadMessage()
			if err != nil {
				return
			}
			t.Log("upstream got", m)
			if m.Command == "PING" {
				uc.WriteMessage(&irc.Message{Prefix: p, Command: "PONG", Params: []string{"x", "roundtrip"}})
			}
			if m.Command == "AUTHENTICATE" && m.Params[0] == "PLAIN" {
				uc.WriteMessage(&irc.Message{Command: "AUTHENTICATE", Params: []string{"+"}})
			} else if m.Command == "AUTHENTICATE" && m.Params[0] != "*" {
				time.Sleep(time.Second)
				uc.WriteMessage(&irc.Message{Prefix: p, Command: "903", Params: []string{testUsername, "ok"}})
			}
		}
	}()
	dc := createTestDownstream(t, srv)
	dc.WriteMessage(&irc.Message{Command: "CAP", Params: []string{"LS", "302"}})
	dc.WriteMessage(&irc.Message{Command: "CAP", Params: []string{"REQ", "sasl"}})
	dc.WriteMessage(&irc.Message{Command: "PASS", Params: []string{testPassword}})
	dc.WriteMessage(&irc.Message{Command: "NICK", Params: []string{testUsername}})
	dc.WriteMessage(&irc.Message{Command: "USER", Params: []string{testUsername + "/" + network.Name, "0", "*", testUsername}})
	dc.WriteMessage(&irc.Message{Command: "CAP", Params: []string{"END"}})
	go func() {
		for {
			m, err := dc.ReadMessage()
			if err != nil {
				return
			}
			t.Log("client got", m)
		}
	}()
	time.Sleep(500 * time.Millisecond)
	b := base64.StdEncoding.EncodeToString([]byte("\x00u\x00p"))
	dc.WriteMessage(&irc.Message{Command: "AUTHENTICATE", Params: []string{"PLAIN"}})
	dc.WriteMessage(&irc.Message{Command: "AUTHENTICATE", Params: []string{b}})
	time.Sleep(200 * time.Millisecond)
	dc.WriteMessage(&irc.Message{Command: "AUTHENTICATE", Params: []string{"PLAIN"}})
	dc.WriteMessage(&irc.Message{Command: "AUTHENTICATE", Params: []string{"PLAIN"}})
	time.Sleep(1500 * time.Millisecond)
	if srv.getUser(testUsername) == nil {
		t.Fatal("the user's goroutine died")
	}
}

// NickServ SET of something else than a password.
func TestDefect_NickServSet(t *testing.T) {
	if _, _, ok := parseNickServCredentials("SET HIDE EMAIL ON", "nick"); ok {
		t.Fatal("SET HIDE EMAIL ON taken as credentials")
	}
}

func upstreamLines(t *testing.T, registered bool, lines ...string) {
	db := createTempSqliteDB(t)
	user := createTestUser(t, db)
	network, ln := createTestUpstream(t, db, user)
	defer ln.Close()
	if err := db.StoreChannel(context.Background(), network.ID, &database.Channel{Name: "#c"}); err != nil {
		t.Fatal(err)
	}
	srv := startVerif(t, db)
	c, err := ln.Accept()
	if err != nil {
		t.Fatal(err)
	}
	uc := newNetIRCConn(c)
	if registered {
		registerUpstreamConn(t, uc)
	}
	for _, l := range lines {
		c.Write([]byte(l + "\r\n"))
		time.Sleep(100 * time.Millisecond)
	}
	time.Sleep(time.Second)
	if srv.getUser(testUsername) == nil {
		t.Fatal("the user's goroutine died")
	}
}

// An upstream server sends a message without a source.
func TestDefect_NoSource(t *testing.T) { upstreamLines(t, true, "ACCOUNT foo") }

// An upstream server gives us an empty nickname.
func TestDefect_EmptyNick(t *testing.T) {
	upstreamLines(t, false, ":s 001 :", ":s 376 x :x", ":a!b@c PRIVMSG #c :hello")
}
func TestDefect_EmptyNickChange(t *testing.T) {
	upstreamLines(t, true, ":"+testUsername+" NICK :", ":a!b@c PRIVMSG #c :hello")
}

// Known finding (C08): messages of an upstream connection that is not
// registered yet are handled on the network's goroutine, which reads the
// user's sessions while the user's goroutine changes them. Fails under
// "RACE=1 run.sh TestKnown".
func TestKnown_PreRegistrationRace(t *testing.T) {
	db := createTempSqliteDB(t)
	user := createTestUser(t, db)
	network, ln := createTestUpstream(t, db, user)
	defer ln.Close()
	srv := NewServer(db)
	srv.Logger = NewLogger(io.Discard, false)
	if err := srv.Start(); err != nil {
		t.Fatal(err)
	}
	c, err := ln.Accept()
	if err != nil {
		t.Fatal(err)
	}
	go func() {
		for i := 0; i < 300; i++ {
			c.Write([]byte(":s 900 x x!x@x acc :You are now logged in\r\n"))
			time.Sleep(time.Millisecond)
		}
	}()
	for i := 0; i < 10; i++ {
		cl, sc := net.Pipe()
		go srv.Handle(newNetIRCConn(sc))
		registerDownstreamConn(t, newNetIRCConn(cl), network)
		cl.Close()
	}
	time.Sleep(500 * time.Millisecond)
}

// An administrator broadcasts while their own event queue is full: their
// event loop waits for itself.
func TestDefect_BroadcastSelf(t *testing.T) {
	db := createTempSqliteDB(t)
	user := createTestUser(t, db)
	user.Admin = true
	if err := db.StoreUser(context.Background(), user); err != nil {
		t.Fatal(err)
	}
	srv := NewServer(db)
	srv.Logger = NewLogger(io.Discard, false)
	if err := srv.Start(); err != nil {
		t.Fatal(err)
	}
	u := srv.getUser(user.Username)
	msgs := ""
	for i := 0; i < 300; i++ {
		msgs += "NOTICE $" + srv.Config().Hostname + " :hello\r\n"
	}
	cl, sc := net.Pipe()
	go srv.Handle(newNetIRCConn(sc))
	ic := newNetIRCConn(cl)
	registerDownstreamConn(t, ic, &database.Network{})
	go func() { // drain
		for {
			if _, err := ic.ReadMessage(); err != nil {
				return
			}
		}
	}()
	go cl.Write([]byte(msgs))
	time.Sleep(time.Second)
	cl.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	if err := u.stop(ctx); err != nil {
		t.Fatalf("the user's goroutine is stuck: %v", err)
	}
}

// An administrator runs a command as another user and goes away before its
// output has been read: the other user's event loop waits forever.
func TestDefect_UserRunAbandoned(t *testing.T) {
	db := createTempSqliteDB(t)
	record := createTestUser(t, db)
	for i := 0; i < 30; i++ {
		n := &database.Network{Name: fmt.Sprintf("n%v", i), Addr: "ircs://localhost:1", Enabled: false}
		if err := db.StoreNetwork(context.Background(), record.ID, n); err != nil {
			t.Fatal(err)
		}
	}
	srv := NewServer(db)
	srv.Logger = NewLogger(io.Discard, false)
	if err := srv.Start(); err != nil {
		t.Fatal(err)
	}
	u := srv.getUser(testUsername)
	runCtx, cancelRun := context.WithCancel(context.Background())
	err := handleUserRun(&serviceContext{Context: runCtx, srv: srv, admin: true, print: func(string) {
		cancelRun() // goes away after the first line
	}}, []string{testUsername, "network", "status"})
	t.Logf("user run: %v", err)
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
	defer cancel()
	if err := u.stop(ctx); err != nil {
		t.Fatalf("the user's goroutine is stuck: %v", err)
	}
}

// Updating a network forgot what was delivered to offline clients, which then
// missed their backlog.
func TestDefect_UpdateNetworkReceipts(t *testing.T) {
	db := createTempSqliteDB(t)
	record := createTestUser(t, db)
	srv := NewServer(db)
	srv.Logger = NewLogger(io.Discard, false)
	u := newUser(srv, record)
	ctx := context.Background()
	n, err := u.createNetwork(ctx, &database.Network{Name: "n", Addr: "ircs://localhost:1"}, false)
	if err != nil {
		t.Fatal(err)
	}
	n.delivered.StoreID("#c", "phone", "id")
	rec := n.Network
	rec.Realname = "Someone"
	n, err = u.updateNetwork(ctx, &rec, false)
	if err != nil {
		t.Fatal(err)
	}
	if id := n.delivered.LoadID("#c", "phone"); id != "id" {
		t.Fatalf("delivery receipt lost: %q", id)
	}
}

// A failed update of the database left the new credentials in use.
type failingDB struct{ database.Database }

func (failingDB) StoreNetwork(ctx context.Context, userID int64, n *database.Network) error {
	return fmt.Errorf("failed")
}
func (failingDB) StoreChannel(ctx context.Context, networkID int64, ch *database.Channel) error {
	return fmt.Errorf("failed")
}

func TestDefect_FailedStore(t *testing.T) {
	db := createTempSqliteDB(t)
	record := createTestUser(t, db)
	srv := NewServer(db)
	srv.Logger = NewLogger(io.Discard, false)
	u := newUser(srv, record)
	ctx := context.Background()
	n, err := u.createNetwork(ctx, &database.Network{Name: "n", Addr: "ircs://localhost:1"}, false)
	if err != nil {
		t.Fatal(err)
	}
	run := func(params ...string) error {
		return handleServiceCommand(&serviceContext{Context: ctx, srv: srv, user: u, network: n, print: func(string) {}}, params)
	}
	if err := run("channel", "create", "#a"); err != nil {
		t.Fatal(err)
	}
	if err := run("channel", "update", "#a", "-detach-after", "1h", "-reattach-on", "nonsense"); err == nil {
		t.Fatal("expected an error")
	}
	srv.db = failingDB{db}
	for _, params := range [][]string{
		{"sasl", "set-plain", "user", "secret"},
		{"certfp", "generate", "-key-type", "ed25519"},
		{"channel", "create", "#c"},
		{"channel", "update", "#a", "-detached", "true", "-detach-after", "1h"},
	} {
		if err := run(params...); err == nil {
			t.Errorf("%v: expected an error", params)
		}
	}
	n.autoSaveSASLPlain(ctx, "a", "b")
	if n.SASL.Mechanism != "" || n.SASL.Plain.Password != "" || n.SASL.External.CertBlob != nil {
		t.Errorf("credentials changed: %+v", n.SASL)
	}
	if n.channels.Get("#c") != nil {
		t.Error("channel #c created")
	}
	if ch := n.channels.Get("#a"); ch.Detached || ch.DetachAfter != 0 {
		t.Errorf("channel #a changed: %+v", ch)
	}
}

// The upstream server never answers a WHO: later ones are stuck forever.
func TestDefect_StaleQueue(t *testing.T) {
	db := createTempSqliteDB(t)
	user := createTestUser(t, db)
	network, ln := createTestUpstream(t, db, user)
	defer ln.Close()
	srv := startVerif(t, db)
	defer srv.Shutdown()
	uc := mustAccept(t, ln)
	defer uc.Close()
	registerUpstreamConn(t, uc)
	dc := createTestDownstream(t, srv)
	defer dc.Close()
	registerDownstreamConn(t, dc, network)
	roundtrip(t, dc)
	who := func(mask string) {
		dc.WriteMessage(&irc.Message{Command: "WHO", Params: []string{mask}})
		for {
			msg, err := uc.ReadMessage()
			if err != nil {
				t.Fatal(err)
			}
			if msg.Command == "WHO" && msg.Params[0] == mask {
				return
			}
		}
	}
	within(t, "first WHO", func() { who("a") })
	time.Sleep(100 * time.Millisecond)
	// half a minute later
	conn := srv.getUser(testUsername).networks[0].conn
	conn.pendingCmds["WHO"][0].sentAt = time.Now().Add(-time.Minute)
	within(t, "WHO after a lost one", func() { who("b") })
}

// The upstream server does not know AUTHENTICATE: the exchange of the client
// stays open.
func TestDefect_SaslUnknown(t *testing.T) {
	db := createTempSqliteDB(t)
	srv := NewServer(db)
	srv.Logger = NewLogger(io.Discard, false)
	record := createTestUser(t, db)
	u := newUser(srv, record)
	net, err := u.createNetwork(context.Background(), &database.Network{Addr: "ircs://h", Name: "n"}, false)
	if err != nil {
		t.Fatal(err)
	}
	uc := &upstreamConn{conn: &conn{logger: srv.Logger, srv: srv, closedCh: make(chan struct{})}, network: net, user: u, pendingCmds: map[string][]pendingUpstreamCommand{}}
	close(uc.closedCh)
	dc := &downstreamConn{conn: &conn{logger: srv.Logger, srv: srv, closedCh: make(chan struct{})}, id: 7, user: u, network: net, sasl: &downstreamSASL{}}
	close(dc.closedCh)
	u.downstreamConns = append(u.downstreamConns, dc)
	uc.pendingCmds["AUTHENTICATE"] = []pendingUpstreamCommand{{downstreamID: 7, msg: &irc.Message{Command: "AUTHENTICATE"}}}
	func() {
		defer func() { recover() }() // the connection is not a real one
		uc.handleMessage(context.Background(), &irc.Message{Prefix: &irc.Prefix{Name: "s"}, Command: irc.ERR_UNKNOWNCOMMAND, Params: []string{"nick", "AUTHENTICATE", "unknown"}})
	}()
	if dc.sasl != nil {
		t.Fatal("the exchange of the client is still open")
	}
}

// A server that presents its own certificate and appends the pinned one.
func TestDefect_CertFPAppended(t *testing.T) {
	pinnedKey, pinned, err := generateCertFP("ed25519", 0)
	if err != nil {
		t.Fatal(err)
	}
	_ = pinnedKey // the attacker doesn't have it
	rawKey, own, err := generateCertFP("ed25519", 0)
	if err != nil {
		t.Fatal(err)
	}
	key, err := x509.ParsePKCS8PrivateKey(rawKey)
	if err != nil {
		t.Fatal(err)
	}
	ln, err := tls.Listen("tcp", "localhost:0", &tls.Config{
		Certificates: []tls.Certificate{{Certificate: [][]byte{own, pinned}, PrivateKey: key}},
	})
	if err != nil {
		t.Fatal(err)
	}
	defer ln.Close()

	srv := NewServer(createTempSqliteDB(t))
	srv.Logger = newDebugLogger(t)
	u := newUser(srv, database.NewUser("alice"))
	net := newNetwork(u, database.NewNetwork("ircs://"+ln.Addr().String()), nil)
	sum := sha512.Sum512(pinned)
	net.CertFP = "sha-512:" + hex.EncodeToString(sum[:])
	accepted := make(chan error, 1)
	go func() {
		c, err := ln.Accept()
		if err == nil {
			err = c.(*tls.Conn).Handshake()
			if err == nil {
				_, err = c.Read(make([]byte, 1))
			}
		}
		accepted <- err
	}()
	uc, err := connectToUpstream(context.Background(), net)
	if err != nil {
		t.Fatal(err)
	}
	defer uc.Close()
	uc.conn.SendMessage(context.Background(), &irc.Message{Command: "PASS", Params: []string{"secret"}})
	if err := <-accepted; err == nil {
		t.Fatal("a server without the key of the pinned certificate was accepted")
	}
}

type anyPlainAuth struct{}

func (anyPlainAuth) AuthPlain(ctx context.Context, db database.Database, username, password string) error {
	return nil
}

func uploadVerif(t *testing.T, username string, body io.Reader) (dir string, code int) {
	root := t.TempDir()
	dir = filepath.Join(root, "a", "uploads")
	if err := os.MkdirAll(dir, 0700); err != nil {
		t.Fatal(err)
	}
	up, err := fileupload.New("fs", dir)
	if err != nil {
		t.Fatal(err)
	}
	h := &fileupload.Handler{Uploader: up, Auth: &auth.Authenticator{Plain: anyPlainAuth{}}}
	req := httptest.NewRequest("POST", "/uploads", body)
	req.SetBasicAuth(username, "secret")
	w := httptest.NewRecorder()
	h.ServeHTTP(w, req)
	return dir, w.Code
}

// A username with ".." had its uploads written outside of the upload directory.
func TestDefect_UploadUsername(t *testing.T) {
	dir, _ := uploadVerif(t, "../evil", strings.NewReader("hello"))
	if _, err := os.Stat(filepath.Join(filepath.Dir(dir), "evil")); err == nil {
		t.Fatal("the file was written outside of the upload directory")
	}
}

type brokenBody struct{ n int }

func (b *brokenBody) Read(p []byte) (int, error) {
	if b.n == 0 {
		b.n++
		return copy(p, "hello"), nil
	}
	return 0, io.ErrUnexpectedEOF
}

// An upload that failed left its partial file behind.
func TestDefect_UploadLeftover(t *testing.T) {
	dir, code := uploadVerif(t, "alice", &brokenBody{})
	if code < 400 {
		t.Fatalf("status %v", code)
	}
	files, _ := filepath.Glob(filepath.Join(dir, "alice", "*"))
	if len(files) > 0 {
		t.Fatalf("left behind: %v", files)
	}
}

// capReplies starts a server with one network and returns what it sends after
// the given replies to CAP LS.
func capReplies(t *testing.T, lines ...string) []string {
	db := createTempSqliteDB(t)
	user := createTestUser(t, db)
	_, ln := createTestUpstream(t, db, user)
	defer ln.Close()
	srv := startVerif(t, db)
	defer srv.Shutdown()
	uc := mustAccept(t, ln)
	defer uc.Close()
	expectMessage(t, uc, "CAP")
	expectMessage(t, uc, "NICK")
	expectMessage(t, uc, "USER")
	var out []string
	for _, l := range lines {
		uc.WriteMessage(irc.MustParseMessage(l))
	}
	for {
		uc.SetReadDeadline(time.Now().Add(500 * time.Millisecond))
		msg, err := uc.ReadMessage()
		if err != nil {
			return out
		}
		out = append(out, msg.String())
	}
}

// The first of several lines of capabilities ended the negotiation.
func TestDefect_MultilineCaps(t *testing.T) {
	out := capReplies(t, ":srv CAP soju LS * :server-time")
	if len(out) != 0 {
		t.Fatalf("negotiation went on in the middle of the list: %q", out)
	}
}

// echo-message was requested without being offered, so that the server refused
// the whole request.
func TestDefect_EchoMessageRequest(t *testing.T) {
	for _, l := range capReplies(t, ":srv CAP * LS :labeled-response server-time") {
		if strings.Contains(l, "REQ") && strings.Contains(l, "echo-message") {
			t.Fatalf("requested although not offered: %q", l)
		}
	}
}

// A database failure while disabling a user left its clients connected.
func TestDefect_DisableFailedNetwork(t *testing.T) {
	db := createTempSqliteDB(t)
	record := createTestUser(t, db)
	srv := NewServer(failingDB{db})
	srv.Logger = newDebugLogger(t)
	u := newUser(srv, record)
	network := database.NewNetwork("ircs://example.org")
	network.ID = 1
	u.networks = append(u.networks, newNetwork(u, network, nil))
	a, b := net.Pipe()
	defer a.Close()
	dc := newDownstreamConn(srv, newNetIRCConn(b), 1)
	u.downstreamConns = append(u.downstreamConns, dc)
	err := u.updateUser(context.Background(), func(r *database.User) error {
		r.Enabled = false
		return nil
	})
	if !u.Enabled && !dc.isClosed() {
		t.Fatalf("the user is disabled but the client is still connected (%v)", err)
	}
}

// History of the file store: a message logged at 00:00:00 is after a bound on
// the previous day.
func TestDefect_FSMidnight(t *testing.T) {
	store := msgstore.NewFSStore(t.TempDir(), &database.User{Username: "u"})
	defer store.Close()
	net := &database.Network{ID: 1, Name: "n", Addr: "ircs://localhost"}
	day := time.Date(2024, 5, 2, 0, 0, 0, 0, time.Local)
	for _, ts := range []time.Time{day.Add(-time.Hour), day, day.Add(time.Hour)} {
		_, err := store.Append(net, "#c", &irc.Message{
			Tags:    irc.Tags{"time": xirc.FormatServerTime(ts)},
			Prefix:  &irc.Prefix{Name: "a"},
			Command: "PRIVMSG",
			Params:  []string{"#c", "hi"},
		})
		if err != nil {
			t.Fatal(err)
		}
	}
	l, err := store.LoadAfterTime(context.Background(), day.Add(-2*time.Hour), day.Add(2*time.Hour), &msgstore.LoadMessageOptions{Network: net, Entity: "#c", Limit: 10})
	if err != nil {
		t.Fatal(err)
	}
	if len(l) != 3 {
		t.Fatalf("got %v messages, want 3", len(l))
	}
}

// unitUpstream is a registered upstream connection of a user that is not
// running, so that messages can be handled one by one.
func unitUpstream(t *testing.T) *upstreamConn {
	db := createTempSqliteDB(t)
	record := createTestUser(t, db)
	srv := NewServer(db)
	srv.Logger = newDebugLogger(t)
	srv.registerMetrics()
	u := newUser(srv, record)
	net1 := newNetwork(u, database.NewNetwork("ircs://example.org"), nil)
	u.networks = append(u.networks, net1)
	a, b := net.Pipe()
	go io.Copy(io.Discard, a)
	t.Cleanup(func() { a.Close() })
	cm := net1.casemap
	uc := &upstreamConn{
		conn:                  newConn(srv, newNetIRCConn(b), &connOptions{Logger: srv.Logger}),
		network:               net1,
		user:                  u,
		serverPrefix:          &irc.Prefix{Name: "srv"},
		channels:              xirc.NewCaseMappingMap[*upstreamChannel](cm),
		users:                 xirc.NewCaseMappingMap[*upstreamUser](cm),
		caps:                  xirc.NewCapRegistry(),
		batches:               make(map[string]upstreamBatch),
		availableChannelTypes: stdChannelTypes,
		availableChannelModes: stdChannelModes,
		availableMemberships:  stdMemberships,
		isupport:              make(map[string]*string),
		pendingCmds:           make(map[string][]pendingUpstreamCommand),
		monitored:             xirc.NewCaseMappingMap[bool](cm),
		registered:            true,
		nick:                  "me",
	}
	net1.conn = uc
	return uc
}

func handle(t *testing.T, uc *upstreamConn, lines ...string) {
	t.Helper()
	for _, l := range lines {
		if err := uc.handleMessage(context.Background(), irc.MustParseMessage(l)); err != nil {
			t.Fatalf("%v: %v", l, err)
		}
	}
}

// A server withdraws an ISUPPORT token.
func TestDefect_IsupportNegated(t *testing.T) {
	uc := unitUpstream(t)
	handle(t, uc, ":srv 005 me CHANTYPES=~ MONITOR=10 :are supported", ":srv 005 me -CHANTYPES -MONITOR :are supported")
	if _, ok := uc.isupport["MONITOR"]; ok {
		t.Errorf("MONITOR is still believed to be supported")
	}
	if uc.availableChannelTypes != stdChannelTypes {
		t.Errorf("channel types are still %q", uc.availableChannelTypes)
	}
}

// Being kicked left the timer running which detaches the channel.
func TestDefect_KickDetachTimer(t *testing.T) {
	uc := unitUpstream(t)
	uc.network.channels.Set("#c", &database.Channel{Name: "#c", DetachAfter: time.Hour})
	handle(t, uc, ":me!u@h JOIN #c")
	uch := uc.channels.Get("#c")
	if uch.detachTimer == nil {
		t.Fatal("no detach timer")
	}
	handle(t, uc, ":op!u@h KICK #c me")
	if uch.detachTimer != nil {
		t.Error("the detach timer is still running")
	}
}

// WHO was answered with the user name and host from before a CHGHOST.
func TestDefect_ChghostCache(t *testing.T) {
	uc := unitUpstream(t)
	handle(t, uc, ":me!u@h JOIN #c", ":al!u@h JOIN #c", ":al!u@h CHGHOST newu newh")
	if uu := uc.users.Get("al"); uu == nil || uu.Username != "newu" || uu.Hostname != "newh" {
		t.Errorf("stale cache: %+v", uu)
	}
}

// Clients could make the server connect to itself and to link-local hosts.
func TestDefect_PushEndpointLocal(t *testing.T) {
	for _, host := range []string{"0.0.0.0", "169.254.169.254"} {
		if err := sanityCheckWebPushEndpoint(context.Background(), "https://"+host+"/x"); err == nil {
			t.Errorf("https://%s/x is accepted as a push endpoint", host)
		}
	}
}

// MODE about us, with our nickname spelled with other capitals.
func TestDefect_OurNickCase(t *testing.T) {
	uc := unitUpstream(t)
	nick := strings.ToUpper(uc.nick)
	handle(t, uc, ":"+nick+" MODE "+nick+" +w")
	if !strings.Contains(string(uc.modes), "w") {
		t.Fatalf("user mode not recorded: %q", uc.modes)
	}
}
