package servicesunlynx

import (
	"github.com/ldsec/unlynx/protocols"
	"go.dedis.ch/onet/v3"
	"go.dedis.ch/onet/v3/network"
)

// three servers
func zzmodel_TreeNodeInstance_Roster(n *onet.TreeNodeInstance) *onet.Roster {
	return &onet.Roster{List: []*network.ServerIdentity{nil, nil, nil}}
}

// C13_Barrier: the aggregation starts once every other server has said that its tags are done.
func C13_Barrier(s *Service, tn *onet.TreeNodeInstance, sv Survey) (got, want int) {
	sv.DDTChannel = make(chan int, 4)
	sv.DDTChannel <- 1
	sv.DDTChannel <- 1
	sv.DDTChannel <- 1
	_, pi := zzInstance(s, tn, sv, protocolsunlynx.CollectiveAggregationProtocolName)
	if pi == nil {
		return -1, 1
	}
	return len(sv.DDTChannel), 1
}
