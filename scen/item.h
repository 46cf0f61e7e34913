// An element that moves without failing, and whose construction and copying may be cancelled.
#pragma once
#include "elem.h"

namespace elems {

class Item {
    Elem e_;

  public:
    Item() : e_(0) {}
    explicit Item(int64_t v) : e_((cancel_if_fragile(), v)) {}
    Item(const Item& o) : e_((cancel_if_fragile(), o.e_)) {}
    Item(Item&& o) noexcept : e_(std::move(o.e_)) {}
    Item& operator=(const Item& o) {
        cancel_if_fragile();
        e_ = o.e_;
        return *this;
    }
    Item& operator=(Item&& o) noexcept {
        e_ = std::move(o.e_);
        return *this;
    }
    int64_t get() const {
        return e_.get();
    }
    bool operator==(const Item& o) const {
        return e_ == o.e_;
    }
    bool operator!=(const Item& o) const {
        return e_ != o.e_;
    }
};

// The same, but made without a value it is unset, and that may be cancelled too.
class UItem {
    Elem e_;

  public:
    UItem() : e_((cancel_if_fragile(), kUnset)) {}
    explicit UItem(int64_t v) : e_((cancel_if_fragile(), v)) {}
    UItem(const UItem& o) : e_((cancel_if_fragile(), o.e_)) {}
    UItem(UItem&& o) noexcept : e_(std::move(o.e_)) {}
    UItem& operator=(const UItem& o) {
        cancel_if_fragile();
        e_ = o.e_;
        return *this;
    }
    UItem& operator=(UItem&& o) noexcept {
        e_ = std::move(o.e_);
        return *this;
    }
    int64_t get() const {
        return e_.get();
    }
    void set(int64_t v) {
        e_.set(v);
    }
    bool operator==(const UItem& o) const {
        return e_ == o.e_;
    }
    bool operator!=(const UItem& o) const {
        return e_ != o.e_;
    }
};

}  // namespace elems
