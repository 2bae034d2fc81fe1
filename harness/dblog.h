// Collects the messages of the tool.
#pragma once
#include "MessageRegistration.h"
#include <vector>
#include <string>
class Log : public MessageRegistrator {
public:
	std::vector<std::pair<int, std::string>> items;
	Log() { setDebugMode(true); }
	void Status(const std::string &) override {}
	void AddDetailedMessage(const std::string &d, const MessageState s, const TStringList *) override { items.push_back(std::make_pair((int)s, d)); }
};
extern Registrator msreg_g;
