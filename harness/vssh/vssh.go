// Package vssh stands in for golang.org/x/crypto/ssh: connections lead to the
// harness, which answers the commands. Everything that does not talk to a
// server is the real package.
package vssh

import (
	"errors"
	"io"

	"github.com/yangl1996/rateless-set-reconcile/zzverif/vs"
	"golang.org/x/crypto/ssh"
)

type (
	AuthMethod                   = ssh.AuthMethod
	BannerCallback               = ssh.BannerCallback
	CertChecker                  = ssh.CertChecker
	Certificate                  = ssh.Certificate
	ClientConfig                 = ssh.ClientConfig
	Config                       = ssh.Config
	ConnMetadata                 = ssh.ConnMetadata
	ExitError                    = ssh.ExitError
	ExitMissingError             = ssh.ExitMissingError
	HostKeyCallback              = ssh.HostKeyCallback
	KeyboardInteractiveChallenge = ssh.KeyboardInteractiveChallenge
	OpenChannelError             = ssh.OpenChannelError
	PublicKey                    = ssh.PublicKey
	Signal                       = ssh.Signal
	Signature                    = ssh.Signature
	Signer                       = ssh.Signer
	TerminalModes                = ssh.TerminalModes
	Waitmsg                      = ssh.Waitmsg
)

const (
	SIGABRT = ssh.SIGABRT
	SIGHUP  = ssh.SIGHUP
	SIGINT  = ssh.SIGINT
	SIGKILL = ssh.SIGKILL
	SIGQUIT = ssh.SIGQUIT
	SIGTERM = ssh.SIGTERM
)

var (
	FingerprintLegacyMD5          = ssh.FingerprintLegacyMD5
	FingerprintSHA256             = ssh.FingerprintSHA256
	FixedHostKey                  = ssh.FixedHostKey
	InsecureIgnoreHostKey         = ssh.InsecureIgnoreHostKey
	KeyboardInteractive           = ssh.KeyboardInteractive
	MarshalAuthorizedKey          = ssh.MarshalAuthorizedKey
	NewPublicKey                  = ssh.NewPublicKey
	NewSignerFromKey              = ssh.NewSignerFromKey
	NewSignerFromSigner           = ssh.NewSignerFromSigner
	ParseAuthorizedKey            = ssh.ParseAuthorizedKey
	ParseKnownHosts               = ssh.ParseKnownHosts
	ParsePrivateKey               = ssh.ParsePrivateKey
	ParsePrivateKeyWithPassphrase = ssh.ParsePrivateKeyWithPassphrase
	ParsePublicKey                = ssh.ParsePublicKey
	ParseRawPrivateKey            = ssh.ParseRawPrivateKey
	Password                      = ssh.Password
	PublicKeys                    = ssh.PublicKeys
	RetryableAuthMethod           = ssh.RetryableAuthMethod
)

// What the harness decides.
var (
	OnDial    func(user, addr string) error
	OnSession func(addr string) error
	OnCommand func(addr, cmd string) ([]byte, error)
)

type Client struct {
	User, Addr string
	closed     bool
}

func Dial(network, addr string, config *ClientConfig) (*Client, error) {
	vs.Point()
	if OnDial != nil {
		if err := OnDial(config.User, addr); err != nil {
			return nil, err
		}
	}
	vs.Point()
	return &Client{User: config.User, Addr: addr}, nil
}

func (c *Client) Close() error { c.closed = true; return nil }

func (c *Client) NewSession() (*Session, error) {
	vs.Point()
	if c.closed {
		return nil, errors.New("ssh: connection closed")
	}
	if OnSession != nil {
		if err := OnSession(c.Addr); err != nil {
			return nil, err
		}
	}
	return &Session{c: c}, nil
}

type Session struct {
	Stdin          io.Reader
	Stdout, Stderr io.Writer
	c              *Client
	used, closed   bool
	cmd            string
}

func (s *Session) run(cmd string) ([]byte, error) {
	if s.closed {
		return nil, errors.New("ssh: session closed")
	}
	if s.used {
		return nil, errors.New("ssh: session already started")
	}
	s.used = true
	vs.Point()
	var out []byte
	var err error
	if OnCommand != nil {
		out, err = OnCommand(s.c.Addr, cmd)
	}
	vs.Point()
	return out, err
}

func (s *Session) Run(cmd string) error {
	out, err := s.run(cmd)
	if s.Stdout != nil {
		s.Stdout.Write(out)
	}
	return err
}
func (s *Session) Output(cmd string) ([]byte, error)         { return s.run(cmd) }
func (s *Session) CombinedOutput(cmd string) ([]byte, error) { return s.run(cmd) }
func (s *Session) Start(cmd string) error                    { s.cmd = cmd; return nil }
func (s *Session) Wait() error                               { return s.Run(s.cmd) }
func (s *Session) Close() error                              { s.closed = true; return nil }
func (s *Session) Setenv(name, value string) error           { return nil }
func (s *Session) Signal(Signal) error                       { return nil }
func (s *Session) RequestPty(term string, h, w int, m TerminalModes) error {
	return nil
}
