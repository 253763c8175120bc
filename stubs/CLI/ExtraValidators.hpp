#pragma once
#include <CLI/Validators.hpp>
