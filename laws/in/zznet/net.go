// Package zznet models the network of a protocol instance for the laws: the
// functions replace the methods of the same name, and record what is sent.
package zznet

import (
	"errors"

	"github.com/fanliao/go-concurrentMap"
	"github.com/ldsec/unlynx/lib"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
	"go.dedis.ch/onet/v3/network"
)

// Msg is a message handed to the network.
type Msg struct {
	To   int // Parent, Children or Node
	Node *onet.TreeNode
	Body interface{}
}

const (
	Parent = iota
	Children
	Node
)

// Sent are the messages sent so far, Finished counts the calls of Done.
var (
	Sent     []Msg
	Finished int
)

// Reset forgets the messages sent so far.
func Reset() { Sent, Finished = nil, 0 }

func TreeNodeInstance_SendToParent(n *onet.TreeNodeInstance, m interface{}) error {
	Sent = append(Sent, Msg{To: Parent, Body: m})
	return nil
}

func TreeNodeInstance_SendToChildren(n *onet.TreeNodeInstance, m interface{}) error {
	if !n.IsLeaf() {
		Sent = append(Sent, Msg{To: Children, Body: m})
	}
	return nil
}

func TreeNodeInstance_SendToChildrenInParallel(n *onet.TreeNodeInstance, m interface{}) []error {
	if !n.IsLeaf() {
		Sent = append(Sent, Msg{To: Children, Body: m})
	}
	return nil
}

func TreeNodeInstance_SendTo(n *onet.TreeNodeInstance, to *onet.TreeNode, m interface{}) error {
	Sent = append(Sent, Msg{To: Node, Node: to, Body: m})
	return nil
}

func TreeNodeInstance_Done(n *onet.TreeNodeInstance) { Finished++ }

func TreeNodeInstance_RegisterChannel(n *onet.TreeNodeInstance, c interface{}) error { return nil }

func TreeNodeInstance_RegisterChannels(n *onet.TreeNodeInstance, c ...interface{}) error { return nil }

// TreeNodeInstance_Public is the key that goes with the private one.
func TreeNodeInstance_Public(n *onet.TreeNodeInstance) kyber.Point {
	return libunlynx.SuiTe.Point().Mul(n.Private(), nil)
}

// The same things under several names.

func TreeNodeInstance_Roster(n *onet.TreeNodeInstance) *onet.Roster { return n.Tree().Roster }

func TreeNodeInstance_List(n *onet.TreeNodeInstance) []*onet.TreeNode { return n.Tree().List() }

func TreeNode_Equal(a, b *onet.TreeNode) bool { return a.ID == b.ID }

func TreeNodeID_Equal(a, b onet.TreeNodeID) bool { return a == b }

// The survey table of a service: what was put under a key last is what is found.

type cell struct {
	m *concurrent.ConcurrentMap
	k interface{}
}

var table = map[cell]interface{}{}

// Clear empties the tables.
func Clear() { table = map[cell]interface{}{} }

func ConcurrentMap_Put(m *concurrent.ConcurrentMap, k, v interface{}) (interface{}, error) {
	old := table[cell{m, k}]
	table[cell{m, k}] = v
	return old, nil
}

func ConcurrentMap_Get(m *concurrent.ConcurrentMap, k interface{}) (interface{}, error) {
	return table[cell{m, k}], nil
}

// The protocol instances of a service.

var (
	Name       string                // the protocol an instance was made for
	Conf       []byte                // its configuration
	Registered onet.ProtocolInstance // the instance handed to the overlay
	Tree       *onet.Tree
)

func Context_NewTreeNodeInstance(c *onet.Context, t *onet.Tree, tn *onet.TreeNode, name string) *onet.TreeNodeInstance {
	Tree, Name = t, name
	return Instance
}

// Instance is the node a service starts protocols on.
var Instance *onet.TreeNodeInstance

func TreeNodeInstance_ProtocolName(n *onet.TreeNodeInstance) string { return Name }

func TreeNodeInstance_SetConfig(n *onet.TreeNodeInstance, c *onet.GenericConfig) error {
	Conf = c.Data
	return nil
}

func Context_RegisterProtocolInstance(c *onet.Context, p onet.ProtocolInstance) error {
	Registered = p
	return nil
}

// Frozen is the message as it is now; what happens to it later does not change it.
// (The analysis knows this function.)
func Frozen(m interface{}) interface{} { return m }

// Raw is a message from one service to another.
type Raw struct {
	To   *network.ServerIdentity
	Body interface{}
}

// Posted are the messages sent between services.
var Posted []Raw

// Lost is the server that cannot be reached, if any.
var Lost *network.ServerIdentity

func Context_SendRaw(c *onet.Context, to *network.ServerIdentity, m interface{}) error {
	if Lost != nil && to == Lost {
		return errors.New("not possible")
	}
	Posted = append(Posted, Raw{to, Frozen(m)})
	return nil
}

func MessageTypeID_Equal(a, b network.MessageTypeID) bool { return a == b }
