// Makes the compiler emit the header-only part of the library (compiled with -femit-all-decls);
// the calls below only select template instances, they are never executed.
#include <routingkit/all.h>
#include <routingkit/strongly_connected_component.h>
#include "buffered_asynchronous_reader.h"
#include "file_data_source.h"
#include "protobuf.h"
#include <random>

using namespace RoutingKit;

namespace rk_driver{
	struct Item{ unsigned key; unsigned payload; };

	void vectors(const std::string&n, const std::vector<unsigned>&v, std::vector<unsigned>&w, const BitVector&b, std::vector<std::string>&s, std::vector<unsigned>&p){
		save_vector<unsigned>(n, v);
		w = load_vector<unsigned>(n);
		save_value<unsigned>(n, w[0]);
		w[0] = load_value<unsigned>(n);
		open_file_for_saving(n, [&](std::ostream&out){ write_vector(out, v); write_value(out, v[0]); });
		open_file_for_loading(n, [&](std::istream&in, unsigned long long l){ w = read_vector<unsigned>(in, l); w[0] = read_value<unsigned>(in); });
		inplace_keep_element_of_vector_if(b, s);
		inplace_remove_element_from_vector_if(b, s);
		s = keep_element_of_vector_if(b, s);
		s = remove_element_from_vector_if(b, s);
		s = apply_permutation(p, s);
		s = apply_permutation(p, std::move(s));
		s = apply_inverse_permutation(p, s);
		s = apply_inverse_permutation(p, std::move(s));
		std::mt19937 gen;
		p = random_permutation(10, gen);
	}

	void sorting(std::vector<Item>&v, std::vector<unsigned>&p, std::vector<unsigned>&u, unsigned n){
		auto key = [](const Item&i){ return i.key; };
		auto less = [](const Item&l, const Item&r){ return l.key < r.key; };
		p = compute_sort_permutation_using_key(v, n, key);
		p = compute_stable_sort_permutation_using_key(v, n, key);
		p = compute_inverse_sort_permutation_using_key(v, n, key);
		p = compute_inverse_stable_sort_permutation_using_key(v, n, key);
		v = sort_using_key(v, n, key);
		v = sort_using_key(std::move(v), n, key);
		v = stable_sort_using_key(v, n, key);
		v = stable_sort_using_key(std::move(v), n, key);
		p[0] = is_sorted_using_key(v, n, key);
		p = compute_sort_permutation_using_comparator(v, less);
		p = compute_stable_sort_permutation_using_comparator(v, less);
		p = compute_inverse_sort_permutation_using_comparator(v, less);
		p = compute_inverse_stable_sort_permutation_using_comparator(v, less);
		v = sort_using_comparator(v, less);
		v = sort_using_comparator(std::move(v), less);
		v = stable_sort_using_comparator(v, less);
		v = stable_sort_using_comparator(std::move(v), less);
		p[0] = is_sorted_using_comparator(v, less);
		p = compute_sort_permutation_using_less(u);
		p = compute_stable_sort_permutation_using_less(u);
		p = compute_inverse_sort_permutation_using_less(u);
		p = compute_inverse_stable_sort_permutation_using_less(u);
		u = sort_using_less(u);
		u = sort_using_less(std::move(u));
		u = stable_sort_using_less(u);
		u = stable_sort_using_less(std::move(u));
		p[0] = is_sorted_using_less(u);
	}

	unsigned search(Dijkstra&d, const std::vector<unsigned>&w){
		return d.settle(ScalarGetWeight(w)).distance;
	}

	void misc(TagMap&m, const char*a, const std::vector<unsigned>&v, BitVector&b){
		m.build(3, [&](unsigned){ return a; }, [&](unsigned){ return a; });
		b = make_bit_vector(7, [&](unsigned x){ return v[x] == 0; });
		LocalIDMapper l(b);
		IDMapper i(b);
		unsigned x = min_element_of(v) + max_element_of(v) + min_element_of(v, 0u) + max_element_of(v, 0u);
		min_to(x, v[0]);
		max_to(x, v[0]);
		FileDataSource s;
		BufferedAsynchronousReader r(s);
	}
}
