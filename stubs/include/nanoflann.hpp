// graph.cpp is written for nanoflann 1.4, 1.5.4 is installed: give it the 1.4 names, and the 1.4 way
// to split points which all coincide (1.5.4 compares them with zero and reads past the end).
#pragma once
#define KDTreeSingleIndexAdaptor KDTreeSingleIndexAdaptor_v15
#include_next <nanoflann.hpp>
#undef KDTreeSingleIndexAdaptor
#include <algorithm>
#include <utility>
#include <vector>
namespace nanoflann
{
struct SearchParams : SearchParameters
{
  SearchParams(int /* checks_ignored */ = 32, float eps_ = 0, bool sorted_ = true) : SearchParameters(eps_, sorted_) {}
};
template <class Distance, class DatasetAdaptor, int32_t DIM = -1, typename IndexType = uint32_t>
class KDTreeSingleIndexAdaptor : public KDTreeSingleIndexAdaptor_v15<Distance, DatasetAdaptor, DIM, IndexType>
{
  using Base = KDTreeSingleIndexAdaptor_v15<Distance, DatasetAdaptor, DIM, IndexType>;
  using Node = typename Base::Node;
  using Offset = typename Base::Offset;
  using Box = typename Base::BoundingBox;
  static KDTreeSingleIndexAdaptorParams unbuilt(KDTreeSingleIndexAdaptorParams p)
  {
    p.flags = KDTreeSingleIndexAdaptorFlags::SkipInitialBuildIndex;
    return p;
  }
  Node * divide(Offset left, Offset right, Box & box)
  {
    if (right - left <= static_cast<Offset>(this->leaf_max_size_)) return this->divideTree(*this, left, right, box);
    const int dims = DIM > 0 ? DIM : this->dim_;
    double span = 0;
    for (int i = 0; i < dims; ++i) span = std::max<double>(span, box[i].high - box[i].low);
    typename Base::DistanceType cut;
    Offset idx;
    typename Base::Dimension feat;
    if (span > 0) this->middleSplit_(*this, left, right - left, idx, feat, cut, box);
    else { feat = 0; cut = box[0].low; idx = (right - left) / 2; }
    Node * node = this->pool_.template allocate<Node>();
    node->node_type.sub.divfeat = feat;
    Box lo(box), hi(box);
    lo[feat].high = cut;
    node->child1 = divide(left, left + idx, lo);
    hi[feat].low = cut;
    node->child2 = divide(left + idx, right, hi);
    node->node_type.sub.divlow = lo[feat].high;
    node->node_type.sub.divhigh = hi[feat].low;
    for (int i = 0; i < dims; ++i)
    {
      box[i].low = std::min(lo[i].low, hi[i].low);
      box[i].high = std::max(lo[i].high, hi[i].high);
    }
    return node;
  }

public:
  using ElementType = typename Base::ElementType;
  using DistanceType = typename Base::DistanceType;
  KDTreeSingleIndexAdaptor(int dims, const DatasetAdaptor & data, const KDTreeSingleIndexAdaptorParams & params = {})
  : Base(dims, data, unbuilt(params))
  {
    if (!(params.flags & KDTreeSingleIndexAdaptorFlags::SkipInitialBuildIndex)) buildIndex();
  }
  void buildIndex()
  {
    this->size_ = this->size_at_index_build_ = this->dataset_.kdtree_get_point_count();
    this->init_vind();
    this->freeIndex(*this);
    this->size_at_index_build_ = this->size_;
    if (this->size_ == 0) return;
    this->computeBoundingBox(this->root_bbox_);
    this->root_node_ = divide(0, this->size_, this->root_bbox_);
  }
  using Base::radiusSearch;
  size_t radiusSearch(const ElementType * q, const DistanceType & radius,
                      std::vector<std::pair<IndexType, DistanceType>> & out, const SearchParameters & params) const
  {
    std::vector<ResultItem<IndexType, DistanceType>> r;
    Base::radiusSearch(q, radius, r, params);
    out.clear();
    for (auto & e : r) out.emplace_back(e.first, e.second);
    return out.size();
  }
};
}
