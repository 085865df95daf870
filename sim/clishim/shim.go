// Package verifcli is cmd/tdex made importable.
package verifcli

import (
	"context"
	"io"
	"net"

	verifsimrt "github.com/tdex-network/tdex-daemon/verifsimrt"
	"github.com/urfave/cli/v2"
	"google.golang.org/grpc"
)

// DialFn connects the client to the daemon.
var DialFn func(ctx context.Context, addr string) (net.Conn, error)

var verifApp *cli.App

func verifNewApp() *cli.App {
	verifApp = cli.NewApp()
	verifApp.Writer, verifApp.ErrWriter = io.Discard, io.Discard
	return verifApp
}

func verifDial(target string, o ...grpc.DialOption) (*grpc.ClientConn, error) {
	return grpc.Dial(target, append(o, grpc.WithContextDialer(DialFn))...)
}

func verifDialContext(ctx context.Context, target string, o ...grpc.DialOption) (*grpc.ClientConn, error) {
	return grpc.DialContext(ctx, target, append(o, grpc.WithContextDialer(DialFn))...)
}

// Main runs the program; Reset makes its package variables as at start.
func Main() { main() }

func Reset() {
	cli.OsExiter = verifsimrt.Exit
	cli.ErrWriter = io.Discard
	if verifApp == nil {
		return
	}
	var walk func(l []*cli.Command)
	walk = func(l []*cli.Command) {
		for _, c := range l {
			for _, f := range c.Flags {
				if x, ok := f.(*cli.StringSliceFlag); ok {
					x.Value, x.HasBeenSet = nil, false
				}
			}
			walk(c.Subcommands)
		}
	}
	walk(verifApp.Commands)
}
