// Stand-in for the delabella submodule (absent): declarations only; nothing verified here reaches it.
#pragma once
#include <cstddef>
