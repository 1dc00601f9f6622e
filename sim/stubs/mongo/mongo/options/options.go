// Package options: the names used by the code under test.
package options

import "time"

type ClientOptions struct{ URI string }

func Client() *ClientOptions                                               { return &ClientOptions{} }
func (c *ClientOptions) ApplyURI(u string) *ClientOptions                  { c.URI = u; return c }
func (c *ClientOptions) SetMinPoolSize(uint64) *ClientOptions              { return c }
func (c *ClientOptions) SetMaxPoolSize(uint64) *ClientOptions              { return c }
func (c *ClientOptions) SetHeartbeatInterval(time.Duration) *ClientOptions { return c }
func (c *ClientOptions) SetConnectTimeout(time.Duration) *ClientOptions    { return c }
func (c *ClientOptions) SetSocketTimeout(time.Duration) *ClientOptions     { return c }

type DatabaseOptions struct{}
type CollectionOptions struct{}
type FindOptions struct{}
type InsertManyOptions struct{}
