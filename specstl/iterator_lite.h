#pragma once
#include <bits/stl_iterator_base_types.h>
#include <bits/stl_iterator_base_funcs.h>
#include <bits/range_access.h>
#include <bits/stl_iterator.h>
