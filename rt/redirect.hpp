// Paths outside the scratch directory that the code under test opens by fixed
// name are answered from below it.
#pragma once
#include <string>
namespace redirect
{
void map(const std::string& prefix, const std::string& to); // prefix itself and everything below it
void clear();
} // namespace redirect
