#pragma once
#include <vital/algo/algorithm.h>
#include <vital/algo/algorithm.txx>
#include <vital/registrar.h>
#include <vital/config/config_block.h>
namespace kwiver { namespace vital {
struct t1 : public algorithm_def< t1 > { static std::string static_type_name() { return "t1"; } };
} }
