package ustack

// Demonstrations of the genuine defects found while building the checks.
// Each test fails (or crashes) on the commit named "base" and passes on the
// repaired tree.  They are documentation only: no registered check runs them.
//   go test -overlay overlay.json -vet=off -run TestDefect . (see run.sh)

import (
	"bytes"
	"errors"
	"io"
	"net"
	"reflect"
	"sync"
	"testing"
	"time"
)

type stubConn struct {
	name   string
	ref    bool
	mu     sync.Mutex
	out    bytes.Buffer
	refs   []interface{}
	closed bool
	werr   error
}

func (c *stubConn) GetName() string                    { return c.name }
func (c *stubConn) Read(p []byte) (int, error)         { return 0, io.EOF }
func (c *stubConn) UseReference() bool                 { return c.ref }
func (c *stubConn) GetReference() (interface{}, error) { return nil, io.EOF }
func (c *stubConn) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.werr != nil {
		return 0, c.werr
	}
	return c.out.Write(p)
}
func (c *stubConn) SetReference(p interface{}) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if p == nil {
		return errors.New("null")
	}
	c.refs = append(c.refs, p)
	return nil
}
func (c *stubConn) Close()       { c.mu.Lock(); c.closed = true; c.mu.Unlock() }
func (c *stubConn) Closed() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.closed }

// probe sits at either end of a chain and records what reaches it
type probe struct {
	ProcBase
	up, down [][]byte
	downMsg  []interface{}
	upMsg    []interface{}
}

func newProbe() *probe {
	p := &probe{ProcBase: NewProcBaseInstance("probe")}
	p.SetWhere(p)
	return p
}
func take(ctx Context) []byte {
	ub := ctx.GetBuffer()
	if ub == nil {
		return nil
	}
	b := make([]byte, ub.ReadableLength())
	ub.Read(b)
	return b
}
func (p *probe) OnUpperData(ctx Context) {
	p.downMsg = append(p.downMsg, ctx.GetMessage())
	p.down = append(p.down, take(ctx))
}
func (p *probe) OnLowerData(ctx Context) {
	p.upMsg = append(p.upMsg, ctx.GetMessage())
	p.up = append(p.up, take(ctx))
}

func chain(dps ...DataProcessor) (u *DefaultUStack, top, bottom *probe) {
	u = NewUStack().(*DefaultUStack)
	for _, d := range dps {
		u.AppendDataProcessor(d)
	}
	u.build()
	top, bottom = newProbe(), newProbe()
	dps[0].SetUpper(top)
	dps[len(dps)-1].SetLower(bottom)
	for _, d := range dps {
		d.Run()
	}
	return
}

func bufOf(b []byte) *UBuf { ub := UBufAlloc(2048); ub.Write(b); return ub }

func TestDefectUBufFromSpareCapacity(t *testing.T) {
	ub := UBufFrom(make([]byte, 1, 4))
	for i := 0; i < 4; i++ {
		if err := ub.WriteByte(byte(i)); err != nil {
			t.Fatal(err)
		}
	}
}

func TestDefectHeadWriteOnCOW(t *testing.T) {
	ub := UBufAllocWithHeadReserved(16, 4)
	ub.WriteU16(0x1234)
	snap := UBufMakeSnapshot(ub, UBufSnapshotTypeCopyOnWrite)
	if err := snap.WriteHeadByte(1); err != nil {
		t.Fatal(err)
	}
	if v, _ := ub.ReadU16(); v != 0x1234 {
		t.Fatal("source changed")
	}
}

func TestDefectReadFromDropsDataOnError(t *testing.T) {
	dst, src := UBufAlloc(64), UBufAlloc(64)
	src.Write([]byte("abc"))
	dst.ReadFrom(src)
	if dst.ReadableLength() != 3 {
		t.Fatal("bytes taken from the source were lost")
	}
}

type shortWriter struct{}

func (shortWriter) Write(p []byte) (int, error) { return 1, errors.New("short") }
func TestDefectWriteToCount(t *testing.T) {
	ub := bufOf([]byte("abc"))
	n, _ := ub.WriteTo(shortWriter{})
	if n != 1 || ub.ReadableLength() != 2 {
		t.Fatal("bytes handed out are still readable", n, ub.ReadableLength())
	}
}

func TestDefectFrameReferenceDirection(t *testing.T) {
	f := NewFrameDecoder()
	_, top, bottom := chain(f)
	_ = top
	f.OnUpperData(NewUStackContext().SetConnection(&stubConn{ref: true}).SetMessage("m"))
	if len(bottom.downMsg) != 1 {
		t.Fatal("message sent on a reference connection never reached the transport")
	}
}

func TestDefectFrameSegmentation(t *testing.T) {
	wire := []byte{0, 0, 0, 5, 'h', 'e', 'l', 'l', 'o', 0, 0, 0, 3, 'x', 'y', 'z'}
	for cut := 1; cut < len(wire); cut++ {
		f := NewFrameDecoder()
		_, top, _ := chain(f)
		c := &stubConn{}
		for _, part := range [][]byte{wire[:cut], wire[cut:]} {
			f.OnLowerData(NewUStackContext().SetConnection(c).SetBuffer(bufOf(part)))
		}
		if !reflect.DeepEqual(top.up, [][]byte{[]byte("hello"), []byte("xyz")}) {
			t.Fatalf("cut %d: %q", cut, top.up)
		}
	}
}

func TestDefectFrameZeroLength(t *testing.T) {
	f := NewFrameDecoder()
	chain(f)
	f.OnLowerData(NewUStackContext().SetConnection(&stubConn{}).SetBuffer(bufOf([]byte{0, 0, 0, 0, 0})))
}

func TestDefectFrameMixesConnections(t *testing.T) {
	f := NewFrameDecoder()
	_, top, _ := chain(f)
	a, b := &stubConn{name: "a"}, &stubConn{name: "b"}
	f.OnLowerData(NewUStackContext().SetConnection(a).SetBuffer(bufOf([]byte{0, 0, 0})))
	f.OnLowerData(NewUStackContext().SetConnection(b).SetBuffer(bufOf([]byte{0, 0, 0, 2, 'o', 'k'})))
	if !reflect.DeepEqual(top.up, [][]byte{[]byte("ok")}) {
		t.Fatalf("%q", top.up)
	}
}

func TestDefectEchoOverFrames(t *testing.T) {
	e, f := NewEcho(), NewFrameDecoder()
	_, _, bottom := chain(e, f)
	f.OnLowerData(NewUStackContext().SetConnection(&stubConn{}).SetBuffer(bufOf([]byte{0, 0, 0, 2, 'o', 'k'})))
	if !reflect.DeepEqual(bottom.down, [][]byte{{0, 0, 0, 2, 'o', 'k'}}) {
		t.Fatalf("%q", bottom.down)
	}
}

func TestDefectHeaderWriteErrorIgnored(t *testing.T) {
	for _, d := range []DataProcessor{NewStatCounter(), NewHeartbeat(), NewLoadBalancer(), NewFrameDecoder()} {
		_, _, bottom := chain(d)
		ub := UBufAlloc(8) // no head room
		ub.Write([]byte("x"))
		d.OnUpperData(NewUStackContext().SetConnection(&stubConn{}).SetBuffer(ub))
		if len(bottom.down) != 0 {
			t.Fatal(d.GetName(), "sent a message without its header")
		}
	}
}

func TestDefectFilterNilRule(t *testing.T) {
	f := NewFilter(func(Context, bool) bool { return true })
	_, _, bottom := chain(f)
	f.OnUpperData(NewUStackContext())
	if len(bottom.down) != 1 {
		t.Fatal("not passed")
	}
	w := NewForwarder(func(Context, bool) bool { return false })
	_, _, bottom = chain(w)
	w.OnUpperData(NewUStackContext())
	if len(bottom.down) != 1 {
		t.Fatal("not passed")
	}
}

func TestDefectLoadBalancerDropsEverything(t *testing.T) {
	l := NewLoadBalancer()
	_, top, bottom := chain(l)
	ub := UBufAllocWithHeadReserved(8, 1)
	ub.Write([]byte("x"))
	l.OnUpperData(NewUStackContext().SetConnection(&stubConn{}).SetBuffer(ub))
	l.OnLowerData(NewUStackContext().SetConnection(&stubConn{}).SetBuffer(bufOf(bottom.down[0])))
	if len(top.up) != 1 {
		t.Fatal("application message was dropped")
	}
}

func TestDefectNilConnection(t *testing.T) {
	for _, d := range []DataProcessor{NewStatCounter(), NewHeartbeat(), NewLoadBalancer(), NewFrameDecoder()} {
		chain(d)
		d.OnUpperData(NewUStackContext().SetMessage([]byte("x")))
	}
}

func TestDefectCodecOnReferenceConnection(t *testing.T) {
	for _, d := range []DataProcessor{NewBytesCodec(), NewStringCodec(), NewJSONCodec(reflect.TypeOf(0)), NewGOBCodec(reflect.TypeOf(0)), NewGenericCodec(nil, nil, nil), NewSessionResolver()} {
		_, top, bottom := chain(d)
		d.OnUpperData(NewUStackContext().SetConnection(&stubConn{ref: true}).SetMessage(7))
		d.OnLowerData(NewUStackContext().SetConnection(&stubConn{ref: true}).SetMessage(7))
		if len(bottom.downMsg) != 1 || len(top.upMsg) != 1 {
			t.Error(d.GetName(), "dropped a reference message")
		}
	}
}

func TestDefectTimersOnReferenceConnection(t *testing.T) {
	h, s := NewHeartbeat(), NewStatCounter().SetOption("Collect.IntervalInSecond", 1)
	_, _, bottom := chain(h, s)
	c := &stubConn{ref: true}
	h.OnEvent(Event{Type: UStackEventNewConnection, Data: TransportConnection(c)})
	s.OnEvent(Event{Type: UStackEventNewConnection, Data: TransportConnection(c)})
	time.Sleep(100 * time.Millisecond)
	c.Close()
	if len(bottom.downMsg) != 0 {
		t.Fatal("a control message (nil reference) was sent, which makes the lower deck close the connection")
	}
}

func TestDefectHeartbeatCallbackUnderLock(t *testing.T) {
	u := NewUStack().(*DefaultUStack)
	hb := NewHeartbeat().SetOption("TimeoutInSecond", 0).(*Heartbeat)
	u.AppendDataProcessor(hb)
	done := make(chan bool)
	u.SetEventListener(func(e Event) {
		if e.Type == UStackEventHeartbeatLost {
			hb.updateMonitor(&stubConn{}) // what any new connection does
			close(done)
		}
	})
	u.build()
	hb.timeoutInSecond = 0
	hb.monitors[&stubConn{}] = time.Now()
	go hb.check()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		t.Fatal("deadlock: listener called with the monitor lock held")
	}
}

func TestDefectDeletedEndpointKeepsSending(t *testing.T) {
	u := NewUStack().(*DefaultUStack)
	u.Run()
	p := newProbe()
	entered, release := make(chan bool, 8), make(chan bool)
	u.upperDeck.SetLower(&blocking{probe: p, entered: entered, release: release})
	ep := NewEndPoint("e", 0)
	u.AddEndPoint(ep)
	ep.GetTxChannel() <- NewEndPointData().SetData("1")
	<-entered
	u.DeleteEndPoint(ep)
	close(release)
	time.Sleep(50 * time.Millisecond)
	ep.GetTxChannel() <- NewEndPointData().SetData("2")
	select {
	case <-entered:
		t.Fatal("a deleted endpoint still transmits")
	case <-time.After(100 * time.Millisecond):
	}
}

type blocking struct {
	*probe
	entered, release chan bool
}

func (b *blocking) OnUpperData(Context) { b.entered <- true; <-b.release }

func TestDefectClosedEventTwice(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	addr := l.Addr().String()
	l.Close()
	var mu sync.Mutex
	closed := 0
	newc := make(chan TransportConnection, 1)
	u := NewUStack().SetEventListener(func(e Event) {
		if e.Type == UStackEventConnectionClosed {
			mu.Lock()
			closed++
			mu.Unlock()
		}
		if e.Type == UStackEventNewConnection {
			newc <- e.Data.(TransportConnection)
		}
	}).(*DefaultUStack)
	u.AddTransport(NewTCPTransport("s").SetAddress(addr)).Run()
	var c net.Conn
	for i := 0; i < 50; i++ {
		if c, err = net.Dial("tcp", addr); err == nil {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	tc := <-newc
	// a failing send and the reader both notice the dead connection
	bad := &badWriter{tc}
	_ = bad
	u.lowerDeck.(*LowerDeck).closeConnection(tc)
	c.Close()
	time.Sleep(100 * time.Millisecond)
	mu.Lock()
	defer mu.Unlock()
	if closed != 1 {
		t.Fatal("ConnectionClosed events:", closed)
	}
}

type badWriter struct{ TransportConnection }

func TestDefectStopWhileDialling(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	addr := l.Addr().String()
	l.Close()
	tp := NewTCPTransport("c").ForServer(false).SetAddress(addr)
	tp.Run()
	time.Sleep(100 * time.Millisecond)
	tp.Stop()
	l, err = net.Listen("tcp", addr)
	if err != nil {
		t.Skip(err)
	}
	defer l.Close()
	time.Sleep(1500 * time.Millisecond) // base: panic: send on closed channel
}

func TestDefectStopBeforeListen(t *testing.T) {
	for i := 0; i < 20; i++ {
		l, _ := net.Listen("tcp", "127.0.0.1:0")
		addr := l.Addr().String()
		l.Close()
		tp := NewTCPTransport("s").SetAddress(addr)
		tp.Run()
		tp.Stop()
		time.Sleep(20 * time.Millisecond)
		if c, err := net.Dial("tcp", addr); err == nil {
			c.Close()
			t.Fatal("still listening after Stop")
		}
	}
}

func TestDefectReferenceStop(t *testing.T) {
	tp := NewReferenceTransport("r").SetAddress("x")
	tp.Run()
	c := tp.NextConnection()
	tp.Stop()
	if !c.Closed() {
		t.Fatal("Stop left the connection open")
	}
	got := make(chan TransportConnection, 1)
	go func() { got <- tp.NextConnection() }()
	select {
	case n := <-got:
		if n != nil {
			t.Fatal("unexpected connection")
		}
	case <-time.After(time.Second):
		t.Fatal("NextConnection still blocked after Stop")
	}
}

func TestDefectTCPNilConnectionSaved(t *testing.T) {
	tp := NewTCPTransport("c").(*TCPTransport)
	tp.SetAddress("127.0.0.1:1").ForServer(false)
	tp.Run()
	tp.Stop()
	tp.NextConnection()
	if len(tp.connections) != 0 {
		t.Fatal("nil connection recorded; the next drop would crash")
	}
}

type countingFeature struct {
	FeatBase
	events int
	stack  UStack
}

func (f *countingFeature) OnEvent(Event)               { f.events++ }
func (f *countingFeature) SetUStack(u UStack) Feature { f.stack = u; return f }

func TestDefectFeatureNotWired(t *testing.T) {
	f := &countingFeature{FeatBase: NewFeatBaseInstance("f")}
	u := NewUStack().AddFeature(f).Run()
	u.PublishEvent(Event{})
	if f.events == 0 || f.stack == nil {
		t.Fatal("feature got no event / no stack")
	}
}

func TestDefectOverheadAccumulates(t *testing.T) {
	u := NewUStack().AppendDataProcessor(NewFrameDecoder()).(*DefaultUStack)
	u.build()
	u.build()
	if u.GetOverhead() != 4 {
		t.Fatal(u.GetOverhead())
	}
}

func TestDefectBaseFluent(t *testing.T) {
	if NewProcBase().SetName("a").GetName() != "a" {
		t.Error("ok")
	}
	p := NewProcBase()
	p.SetName("x")
	if p.SetOption("o", 1) != p || p.SetName("y").GetName() != p.GetName() {
		t.Error("ProcBase setter returns another object")
	}
	f := NewFeatBase()
	if f.SetName("z") != f {
		t.Error("FeatBase setter returns another object")
	}
}

func TestDefectDeleteDuringDelete(t *testing.T) {
	u := NewUStack()
	a, b, c := NewEndPoint("a", 1), NewEndPoint("b", 2), NewEndPoint("c", 3)
	u.AddEndPoint(a).AddEndPoint(b).AddEndPoint(c)
	u.SetEventListener(func(e Event) {
		if e.Type == UStackEventEndpointDeleted && e.Data == b {
			u.DeleteEndPoint(a)
		}
	})
	u.DeleteEndPoint(b)
	eps := u.GetEndPoint()
	if len(eps) != 1 || eps[0] != c {
		t.Fatal("wrong endpoint removed", len(eps))
	}
}

func TestDefectLoopbackDisable(t *testing.T) {
	l := NewLoopback().SetEnable(false)
	_, top, bottom := chain(l)
	l.OnUpperData(NewUStackContext())
	l.OnLowerData(NewUStackContext())
	if len(bottom.down) != 1 || len(top.up) != 1 {
		t.Fatal("disabled loopback is not transparent")
	}
}

func TestDefectDataListenerTwice(t *testing.T) {
	ep := NewEndPoint("e", 0)
	inside, max := 0, 0
	var mu sync.Mutex
	l := func(EndPoint, EndPointData) {
		mu.Lock()
		inside++
		if inside > max {
			max = inside
		}
		mu.Unlock()
		time.Sleep(5 * time.Millisecond)
		mu.Lock()
		inside--
		mu.Unlock()
	}
	ep.SetDataListener(l).SetDataListener(l)
	for i := 0; i < 20; i++ {
		ep.GetRxChannel() <- NewEndPointData()
	}
	time.Sleep(150 * time.Millisecond)
	if max > 1 {
		t.Fatal("two receivers run at once: order is lost")
	}
}
