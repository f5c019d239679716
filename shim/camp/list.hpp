#ifndef VERIF_CAMP_LIST_HPP
#define VERIF_CAMP_LIST_HPP
#endif
