// A client whose services the harness provides.
package vgovultr

import (
	"net/http"

	real "github.com/vultr/govultr"
)

// OnClient makes the client; without it the services are missing.
var OnClient func(c *real.Client)

func NewClient(httpClient *http.Client, key string) *Client {
	c := &real.Client{}
	if OnClient != nil {
		OnClient(c)
	}
	return c
}
