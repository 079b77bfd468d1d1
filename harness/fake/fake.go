// Package fake is a network in memory: the data link under a client, and what a device answers.
package fake

import (
	"errors"
	"sync"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/zzverif/sym"
)

// Frame is a datagram the client sent.
type Frame struct {
	Data []byte
	Dest btypes.Address
}

type packet struct {
	src  *btypes.Address
	data []byte
}

// Link is a data link.
type Link struct {
	Me, Cast btypes.Address
	// OnSend is called for every datagram; its error is that of the sending.
	OnSend func(Frame) error

	mu     sync.Mutex
	sent   []Frame
	in     chan packet
	closed bool
	ended  chan bool
}

// Mac makes an IP station address.
func Mac(b ...byte) btypes.Address { return btypes.Address{Mac: b, MacLen: uint8(len(b))} }

// New makes a link with fixed addresses.
func New() *Link {
	return &Link{Me: Mac(10, 0, 0, 2, 0xBA, 0xC0), Cast: Mac(10, 0, 0, 255, 0xBA, 0xC0), in: make(chan packet, 64), ended: make(chan bool, 4)}
}

// Client makes a client on the link.
func (l *Link) Client() bacnet.Client {
	c, err := bacnet.NewClient(&bacnet.ClientBuilder{DataLink: l})
	sym.Assert(err == nil && c != nil, "a client is made")
	return c
}

// Run starts the client's receive loop.
func (l *Link) Run(c bacnet.Client) {
	go func() {
		c.ClientRun()
		l.ended <- true
	}()
	sym.Idle()
}

// Stop closes the client and waits for the end of its receive loop.
func (l *Link) Stop(c bacnet.Client) {
	c.Close()
	<-l.ended
}

func (l *Link) GetMyAddress() *btypes.Address        { return &l.Me }
func (l *Link) GetBroadcastAddress() *btypes.Address { return &l.Cast }

func (l *Link) Send(data []byte, npdu *btypes.NPDU, dest *btypes.Address) (int, error) {
	f := Frame{Data: append([]byte(nil), data...), Dest: *dest}
	l.mu.Lock()
	l.sent = append(l.sent, f)
	l.mu.Unlock()
	if l.OnSend != nil {
		if err := l.OnSend(f); err != nil {
			return 0, err
		}
	}
	return len(data), nil
}

// Sent is what has been sent until now.
func (l *Link) Sent() []Frame {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]Frame(nil), l.sent...)
}

// Put makes a datagram arrive.
func (l *Link) Put(src btypes.Address, data []byte) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if !l.closed {
		l.in <- packet{&src, data}
	}
}

func (l *Link) Receive(data []byte) (*btypes.Address, int, error) {
	p, ok := <-l.in
	if !ok {
		return nil, 0, errors.New("closed")
	}
	return p.src, copy(data, p.data), nil
}

func (l *Link) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	if !l.closed {
		l.closed = true
		close(l.in)
	}
	return nil
}
