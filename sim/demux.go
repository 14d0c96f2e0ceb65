package main

import "github.com/lestrrat-go/helium/sax"

// demux is one handler shared by concurrent parses: every task's callbacks go
// to that task's own handler.
type demux struct{ cur func() sax.SAX2Handler }

var _ sax.SAX2Handler = (*demux)(nil)

func (x *demux) SetDocumentLocator(ctx sax.Context, loc sax.DocumentLocator) error {
	return x.cur().SetDocumentLocator(ctx, loc)
}
func (x *demux) StartDocument(ctx sax.Context) error {
	return x.cur().StartDocument(ctx)
}
func (x *demux) EndDocument(ctx sax.Context) error {
	return x.cur().EndDocument(ctx)
}
func (x *demux) ProcessingInstruction(ctx sax.Context, t, d string) error {
	return x.cur().ProcessingInstruction(ctx, t, d)
}
func (x *demux) StartElementNS(ctx sax.Context, local, prefix, uri string, nss []sax.Namespace, attrs []sax.Attribute) error {
	return x.cur().StartElementNS(ctx, local, prefix, uri, nss, attrs)
}
func (x *demux) EndElementNS(ctx sax.Context, local, prefix, uri string) error {
	return x.cur().EndElementNS(ctx, local, prefix, uri)
}
func (x *demux) Characters(ctx sax.Context, b []byte) error {
	return x.cur().Characters(ctx, b)
}
func (x *demux) IgnorableWhitespace(ctx sax.Context, b []byte) error {
	return x.cur().IgnorableWhitespace(ctx, b)
}
func (x *demux) CDataBlock(ctx sax.Context, b []byte) error {
	return x.cur().CDataBlock(ctx, b)
}
func (x *demux) Comment(ctx sax.Context, b []byte) error {
	return x.cur().Comment(ctx, b)
}
func (x *demux) InternalSubset(ctx sax.Context, name, eid, sid string) error {
	return x.cur().InternalSubset(ctx, name, eid, sid)
}
func (x *demux) ExternalSubset(ctx sax.Context, name, eid, sid string) error {
	return x.cur().ExternalSubset(ctx, name, eid, sid)
}
func (x *demux) ElementDecl(ctx sax.Context, name string, typ int, c sax.ElementContent) error {
	return x.cur().ElementDecl(ctx, name, typ, c)
}
func (x *demux) AttributeDecl(ctx sax.Context, elem, name string, typ, def int, dv string, tree sax.Enumeration) error {
	return x.cur().AttributeDecl(ctx, elem, name, typ, def, dv, tree)
}
func (x *demux) EntityDecl(ctx sax.Context, name string, typ int, pub, sys, content string) error {
	return x.cur().EntityDecl(ctx, name, typ, pub, sys, content)
}
func (x *demux) Reference(ctx sax.Context, name string) error {
	return x.cur().Reference(ctx, name)
}
func (x *demux) NotationDecl(ctx sax.Context, name, pub, sys string) error {
	return x.cur().NotationDecl(ctx, name, pub, sys)
}
func (x *demux) UnparsedEntityDecl(ctx sax.Context, name, pub, sys, not string) error {
	return x.cur().UnparsedEntityDecl(ctx, name, pub, sys, not)
}
func (x *demux) Error(ctx sax.Context, msg string, args ...interface{}) error {
	return x.cur().Error(ctx, msg, args...)
}
func (x *demux) HasExternalSubset(ctx sax.Context) (bool, error) {
	return x.cur().HasExternalSubset(ctx)
}
func (x *demux) HasInternalSubset(ctx sax.Context) (bool, error) {
	return x.cur().HasInternalSubset(ctx)
}
func (x *demux) IsStandalone(ctx sax.Context) (bool, error) {
	return x.cur().IsStandalone(ctx)
}
func (x *demux) ResolveEntity(ctx sax.Context, pub, sys string) (sax.ParseInput, error) {
	return x.cur().ResolveEntity(ctx, pub, sys)
}
func (x *demux) GetEntity(ctx sax.Context, name string) (sax.Entity, error) {
	return x.cur().GetEntity(ctx, name)
}
func (x *demux) GetParameterEntity(ctx sax.Context, name string) (sax.Entity, error) {
	return x.cur().GetParameterEntity(ctx, name)
}
