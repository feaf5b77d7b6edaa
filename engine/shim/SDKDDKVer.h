// Stand-in for the Windows SDK header that ColorMagic/targetver.h includes. Nothing from it is used.
#pragma once
