// stand-in for the generated version header (the build system writes it outside the source tree)
#pragma once
namespace brille::version { constexpr auto version_number=""; constexpr auto meta_version=""; constexpr auto git_revision=""; constexpr auto git_branch=""; constexpr auto build_datetime=""; constexpr auto build_hostname=""; }
