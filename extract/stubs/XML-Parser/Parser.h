#pragma once
#include "Tag.h"
namespace xmlPrs {
std::variant<Root, Error> parse_xml(const std::string &file_name);
}
