// Package fakes has in-memory stand-ins for gRPC streams.
package fakes

import (
	"context"
	"errors"
	"io"
	"net"
	"sync"

	"google.golang.org/grpc"
	"google.golang.org/grpc/peer"
	gpb "github.com/openconfig/gnmi/proto/gnmi"
)

// SubServer is the server side of a Subscribe stream.
type SubServer struct {
	grpc.ServerStream
	Ctx  context.Context
	Stop context.CancelFunc
	reqs chan *gpb.SubscribeRequest
	eof  chan struct{}
	once sync.Once
	// OnSend is called for every Send before it returns.
	OnSend func(*gpb.SubscribeResponse) error
	// OnRecv, if set, is called when the server calls Recv.
	OnRecv func()
}

// NewSubServer returns a stream whose context has a peer.
func NewSubServer(ctx context.Context, onSend func(*gpb.SubscribeResponse) error) *SubServer {
	if _, ok := peer.FromContext(ctx); !ok {
		ctx = peer.NewContext(ctx, &peer.Peer{Addr: &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}})
	}
	ctx, cancel := context.WithCancel(ctx)
	return &SubServer{Ctx: ctx, Stop: cancel, reqs: make(chan *gpb.SubscribeRequest, 16), eof: make(chan struct{}), OnSend: onSend}
}

// Request queues a request for Recv.
func (s *SubServer) Request(r *gpb.SubscribeRequest) { s.reqs <- r }

// CloseSend makes Recv return io.EOF once the requests are consumed.
func (s *SubServer) CloseSend() { s.once.Do(func() { close(s.eof) }) }

// Context implements grpc.ServerStream.
func (s *SubServer) Context() context.Context { return s.Ctx }

// Send implements GNMI_SubscribeServer.
func (s *SubServer) Send(r *gpb.SubscribeResponse) error {
	if err := s.Ctx.Err(); err != nil {
		return err
	}
	return s.OnSend(r)
}

// Recv implements GNMI_SubscribeServer.
func (s *SubServer) Recv() (*gpb.SubscribeRequest, error) {
	if s.OnRecv != nil {
		s.OnRecv()
	}
	select {
	case r := <-s.reqs:
		return r, nil
	default:
	}
	select {
	case r := <-s.reqs:
		return r, nil
	case <-s.eof:
		return nil, io.EOF
	case <-s.Ctx.Done():
		return nil, s.Ctx.Err()
	}
}

// ErrSend is a failed send.
var ErrSend = errors.New("send failed")
