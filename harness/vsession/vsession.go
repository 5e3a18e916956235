// Sessions whose requests the harness answers; nothing is sent and no
// configuration of the machine is read.
package vsession

import (
	"bytes"
	"io"
	"net/http"

	"github.com/aws/aws-sdk-go/aws"
	"github.com/aws/aws-sdk-go/aws/defaults"
	"github.com/aws/aws-sdk-go/aws/request"
	real "github.com/aws/aws-sdk-go/aws/session"
)

var (
	OnSession func(region string) error
	// OnRequest fills data, the output of the operation.
	OnRequest func(region, op string, params, data interface{}) error
)

func NewSession(cfgs ...*aws.Config) (*Session, error) {
	cfg := defaults.Config()
	cfg.MergeIn(cfgs...)
	if OnSession != nil {
		if err := OnSession(aws.StringValue(cfg.Region)); err != nil {
			return nil, err
		}
	}
	s := &real.Session{Config: cfg}
	s.Handlers.Validate.PushBack(func(r *request.Request) {
		// nothing of what the service adds is needed
		r.Handlers.Build.Clear()
		r.Handlers.Sign.Clear()
		r.Handlers.Send.Clear()
		r.Handlers.UnmarshalMeta.Clear()
		r.Handlers.ValidateResponse.Clear()
		r.Handlers.Unmarshal.Clear()
		r.Handlers.UnmarshalError.Clear()
		r.Handlers.Retry.Clear()
		r.Handlers.AfterRetry.Clear()
		r.Handlers.Send.PushBack(func(r *request.Request) {
			r.HTTPResponse = &http.Response{StatusCode: 200, Body: io.NopCloser(bytes.NewReader(nil))}
			r.Error = OnRequest(aws.StringValue(r.Config.Region), r.Operation.Name, r.Params, r.Data)
		})
	})
	return s, nil
}

func NewSessionWithOptions(o Options) (*Session, error) { return NewSession(&o.Config) }

func New(cfgs ...*aws.Config) *Session { return Must(NewSession(cfgs...)) }

func Must(s *Session, err error) *Session {
	if err != nil {
		panic(err)
	}
	return s
}
