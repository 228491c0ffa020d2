#ifndef ALEPH_CONFIG_TINY_XML2_HH__
#define ALEPH_CONFIG_TINY_XML2_HH__

#define ALEPH_WITH_TINYXML2

#endif
