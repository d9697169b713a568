package protocolsunlynx

import "go.dedis.ch/onet/v3"

// zzNext is the node after the instance's own one, the first one following the last.
func zzNext(n *onet.TreeNodeInstance) (next *onet.TreeNode) {
	list := n.Tree().List()
	for i := range list {
		if n.TreeNode().Equal(list[i]) {
			if i+1 < len(list) {
				return list[i+1]
			}
			return list[0]
		}
	}
	return nil
}

// C08_RingShuffling: the servers of a run form a ring.
func C08_RingShuffling(n *onet.TreeNodeInstance) (got, want *onet.TreeNode) {
	p, err := NewShufflingProtocol(n)
	if err != nil {
		return nil, n.TreeNode()
	}
	return p.(*ShufflingProtocol).nextNodeInCircuit, zzNext(n)
}

func C08_RingTagging(n *onet.TreeNodeInstance) (got, want *onet.TreeNode) {
	p, err := NewDeterministicTaggingProtocol(n)
	if err != nil {
		return nil, n.TreeNode()
	}
	return p.(*DeterministicTaggingProtocol).nextNodeInCircuit, zzNext(n)
}

func C08_RingShufflingPlusDDT(n *onet.TreeNodeInstance) (got, want *onet.TreeNode) {
	p, err := NewShufflingPlusDDTProtocol(n)
	if err != nil {
		return nil, n.TreeNode()
	}
	return p.(*ShufflingPlusDDTProtocol).nextNodeInCircuit, zzNext(n)
}
