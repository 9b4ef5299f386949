// Conversion between bnl's frames and the reference's.
#pragma once

#include <ref/frame.hpp>

#include <bnl/http3/codec/frame.hpp>

namespace frames {

using bnl::http3::frame;

inline frame
make(const ref::frame &f)
{
  using priority_type = frame::payload::priority::type;
  switch (f.type) {
    case ref::DATA:
      return frame::payload::data{ f.id };
    case ref::HEADERS:
      return frame::payload::headers{ f.id };
    case ref::PRIORITY: {
      frame::payload::priority p{};
      p.prioritized_element_type = static_cast<priority_type>(f.element);
      p.element_dependency_type = static_cast<priority_type>(f.dependency);
      p.prioritized_element_id = f.element_id;
      p.element_dependency_id = f.dependency_id;
      p.weight = f.weight;
      return p;
    }
    case ref::CANCEL_PUSH:
      return frame::payload::cancel_push{ f.id };
    case ref::SETTINGS: {
      frame::payload::settings s{};
      s.max_header_list_size = f.max_header_list_size;
      s.num_placeholders = f.num_placeholders;
      s.qpack_max_table_capacity = f.table_capacity;
      s.qpack_blocked_streams = f.blocked_streams;
      return s;
    }
    case ref::PUSH_PROMISE:
      return frame::payload::push_promise{ f.id, f.size };
    case ref::GOAWAY:
      return frame::payload::goaway{ f.id };
    case ref::MAX_PUSH_ID:
      return frame::payload::max_push_id{ f.id };
    default:
      return frame::payload::duplicate_push{ f.id };
  }
}

inline ref::frame
read(const frame &f)
{
  ref::frame r;
  r.type = static_cast<uint64_t>(static_cast<frame::type>(f));
  switch (r.type) {
    case ref::DATA:
      r.id = f.data.size;
      break;
    case ref::HEADERS:
      r.id = f.headers.size;
      break;
    case ref::PRIORITY:
      r.element = static_cast<int>(f.priority.prioritized_element_type);
      r.dependency = static_cast<int>(f.priority.element_dependency_type);
      r.element_id = f.priority.prioritized_element_id;
      r.dependency_id = f.priority.element_dependency_id;
      r.weight = f.priority.weight;
      break;
    case ref::CANCEL_PUSH:
      r.id = f.cancel_push.push_id;
      break;
    case ref::SETTINGS:
      r.max_header_list_size = f.settings.max_header_list_size;
      r.num_placeholders = f.settings.num_placeholders;
      r.table_capacity = f.settings.qpack_max_table_capacity;
      r.blocked_streams = f.settings.qpack_blocked_streams;
      break;
    case ref::PUSH_PROMISE:
      r.id = f.push_promise.push_id;
      r.size = f.push_promise.size;
      break;
    case ref::GOAWAY:
      r.id = f.goaway.stream_id;
      break;
    case ref::MAX_PUSH_ID:
      r.id = f.max_push_id.push_id;
      break;
    case ref::DUPLICATE_PUSH:
      r.id = f.duplicate_push.push_id;
      break;
    default:
      break;
  }
  return r;
}

inline std::string
text(const ref::frame &f)
{
  std::string s = "frame(type " + std::to_string(f.type) + ", id/size " +
                  std::to_string(f.id);
  if (f.type == ref::PUSH_PROMISE) {
    s += ", block " + std::to_string(f.size);
  }
  if (f.type == ref::PRIORITY) {
    s += ", " + std::to_string(f.element) + "/" + std::to_string(f.dependency) +
         " " + std::to_string(f.element_id) + "/" +
         std::to_string(f.dependency_id) + " weight " + std::to_string(f.weight);
  }
  if (f.type == ref::SETTINGS) {
    s += ", " + std::to_string(f.max_header_list_size) + " " +
         std::to_string(f.num_placeholders) + " " +
         std::to_string(f.table_capacity) + " " +
         std::to_string(f.blocked_streams);
  }
  return s + ")";
}

}
