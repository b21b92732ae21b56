// Instances of the extra weight templates with a link function of which nothing is known, in particular not that it
// commutes.  Only selects template instances, never executed.
#include <routingkit/all.h>

using namespace RoutingKit;

namespace rk_driver{
	struct OrderedLink{
		unsigned operator()(unsigned first, unsigned second)const;
	};

	struct TimeDependentWeight{
		unsigned operator()(unsigned arc, unsigned departure_time)const;
	};

	unsigned settle(Dijkstra&d, const TimeDependentWeight&weight){
		return d.settle(weight).distance;
	}

	unsigned links(
		ContractionHierarchyQuery&q, const ContractionHierarchy&ch,
		const std::vector<unsigned>&v, const OrderedLink&link, std::vector<unsigned>&tmp, std::vector<unsigned>&dist
	){
		ContractionHierarchyExtraWeight<unsigned>e(ch, v, link);
		e.reset(ch, v, link);
		q.get_extra_weight_distances_to_targets(e, link, tmp, dist);
		q.get_extra_weight_distances_to_sources(e, link, tmp, dist);
		q.get_extra_weight_distances_to_targets(v, link, tmp, dist);
		q.get_extra_weight_distances_to_sources(v, link, tmp, dist);
		return q.get_extra_weight_distance(e, link) + q.get_extra_weight_distance(v, link);
	}
}
