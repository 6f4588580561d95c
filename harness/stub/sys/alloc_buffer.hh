// stands in for the platform's header, which says where the "big" heap is
#pragma once
struct BigHeapAllocation {};
