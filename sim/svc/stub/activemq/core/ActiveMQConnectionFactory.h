#pragma once
#include <cms_all.h>
