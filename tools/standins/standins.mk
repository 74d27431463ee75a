# Builds the repository's own test suites against the stand-ins of /verif/shim. Use through ../standins.sh.
R := /repo/packages
V := /verif
INC := -I$(V)/shim -I$(V)/shim/tao -I$(V)/shim/sundown -I$(R)/boost -I$(R)/apib/include -I$(R)/apib/src -I$(R)/apib-parser/include \
 -I$(R)/apib-parser/src -I$(R)/apib-parser/src/snowcrash -I$(R)/apib-parser/src/markdown-parser -I$(R)/drafter/src -I$(V)/tools/standins
LIB := $(wildcard $(R)/apib/src/*.cc $(R)/apib/src/*/*.cc) $(filter-out %win%,$(shell find $(R)/apib-parser/src $(R)/drafter/src -name '*.cc' -not -path '*/win/*' -not -name main.cc -not -name config.cc -not -path "*grammar/Mediatype.cc")) $(V)/shim/sundown/sundown.cc
TA := $(filter-out %test-apib_parser.cc %test-csnowcrash.cc,$(shell find $(R)/apib-parser/test -name 'test-*.cc'))
TD := $(filter-out %test-drafter.cc %test-JsonIo.cc %test-YamlIo.cc,$(shell find $(R)/drafter/test -name '*.cc'))
obj = $(addprefix $(O)/,$(addsuffix .o,$(subst /,_,$1)))
CXX := g++ -std=c++17 -O0 -g1 -w -DDRAFTER_BUILD_STATIC=1 -DDRAFTER_TEST_FIXTURES='"/repo/packages/drafter/test/fixtures/"'
all: $(O)/apib-tests $(O)/drafter-tests
define rule
$(call obj,$1): $1
	$(CXX) $(INC) -I$(dir $1) -c $1 -o $$@
endef
$(foreach f,$(LIB) $(TA) $(TD) $(V)/tools/standins/main.cc,$(eval $(call rule,$(f))))
$(O)/apib-tests: $(call obj,$(LIB) $(TA) $(V)/tools/standins/main.cc)
	$(CXX) $^ -o $@
$(O)/drafter-tests: $(call obj,$(LIB) $(TD) $(V)/tools/standins/main.cc)
	$(CXX) $^ -o $@
