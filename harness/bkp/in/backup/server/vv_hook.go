package server

import (
	"github.com/Vivino/rankdb/api/client"
	goaclient "github.com/goadesign/goa/client"
)

// VVNew is a destination whose requests are done by d.
func VVNew(d goaclient.Doer, prefix, suffix *string) *RankDB {
	c := &client.Client{Client: goaclient.New(d)}
	c.Host = "host:80"
	return &RankDB{c: c, ListIDPrefix: prefix, ListIDSuffix: suffix}
}
