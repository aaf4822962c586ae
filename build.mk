# Builds conex from the working tree of $(REPO) together with one check.
#   make -f build.mk FLAVOR=opt build/opt/C01
REPO ?= /repo
FLAVOR ?= opt
B := build/$(FLAVOR)

COMMON := -std=c++17 -DCONEX_VERBOSE=0 -DNDEBUG -iquote $(REPO) -I$(REPO) \
  -isystem /usr/include/eigen3 -Isrc -ftrivial-auto-var-init=pattern -w
# The product itself is built with Eigen's debugging off (conex/BUILD).
FLAGS_opt := -O2 -DEIGEN_NO_DEBUG
# Memory-safety flavour: sanitizers, and Eigen's own index checks.
FLAGS_asan := -O1 -g1 -fno-omit-frame-pointer -DEIGEN_NO_DEBUG \
  -fsanitize=address,undefined -fno-sanitize-recover=all
CXX := g++
CXXFLAGS := $(COMMON) $(FLAGS_$(FLAVOR))

LIBSRC := $(wildcard $(REPO)/conex/*.cc) $(REPO)/interfaces/conex.cc
LIBOBJ := $(patsubst %.cc,$(B)/lib/%.o,$(notdir $(wildcard $(REPO)/conex/*.cc))) $(B)/lib/interface_conex.o

.SECONDARY:

$(B)/lib/interface_conex.o: $(REPO)/interfaces/conex.cc
	@mkdir -p $(dir $@)
	$(CXX) $(CXXFLAGS) -MMD -c $< -o $@

$(B)/lib/%.o: $(REPO)/conex/%.cc
	@mkdir -p $(dir $@)
	$(CXX) $(CXXFLAGS) -MMD -c $< -o $@

$(B)/%.o: src/%.cc
	@mkdir -p $(dir $@)
	$(CXX) $(CXXFLAGS) -MMD -c $< -o $@

$(B)/C%: $(B)/C%.o $(B)/pbt.o $(LIBOBJ)
	$(CXX) $(CXXFLAGS) -o $@ $^

-include $(wildcard $(B)/*.d $(B)/lib/*.d)
