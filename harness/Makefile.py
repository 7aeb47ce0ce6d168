# Builds the Python binding, the language parser and copies of the Python sources of $(REPO)/src into $(BUILD)/py.
REPO ?= /repo
OUT := $(BUILD)/py
PLAIN := $(BUILD)/plain
PKG := $(shell pkg-config --cflags gsl python3)
LIBS := -lboost_log -lboost_thread -lboost_system -lpthread -lboost_filesystem $(shell pkg-config --libs gsl)
LIBSRCS := functions relationships maq fragility lognormaldist loss_functions comp_group caching structure context
CF := -std=gnu++11 -include functional -g -O2 -fopenmp -DBOOST_ALL_DYN_LINK -fPIC -w
OBJS := $(LIBSRCS:%=$(PLAIN)/lib/%.o)
PYS := $(OUT)/pyslat.py $(OUT)/SlatInterpreter.py
all: $(OUT)/_pyslatcore.so $(PYS) $(OUT)/slatParser.py $(OUT)/parser.note
$(PLAIN)/lib/%.o: $(REPO)/src/%.cpp
	@mkdir -p $(@D)
	g++ -std=gnu++11 -include functional -g -fopenmp -DBOOST_ALL_DYN_LINK -fPIC -w -O2 $(PKG) -MMD -MP -c -o $@ $<
$(OUT)/pyslatcore_wrap.cpp: $(REPO)/src/pyslatcore.i $(REPO)/src/pyslatcore.h
	@mkdir -p $(@D)
	/usr/bin/swig -python -c++ -outdir $(OUT) -o $@ $<
$(OUT)/pyslatcore_wrap.o: $(OUT)/pyslatcore_wrap.cpp
	g++ $(CF) $(PKG) -I$(REPO)/src -MMD -MP -c -o $@ $<
$(OUT)/pyslatcore.o: $(REPO)/src/pyslatcore.cpp
	@mkdir -p $(@D)
	g++ $(CF) $(PKG) -I$(REPO)/src -MMD -MP -c -o $@ $<
$(OUT)/_pyslatcore.so: $(OUT)/pyslatcore_wrap.o $(OUT)/pyslatcore.o $(OBJS)
	g++ $(CF) -shared -o $@ $^ $(LIBS)
$(OUT)/%.py: $(REPO)/src/%.py
	@mkdir -p $(@D)
	cp $< $@
$(OUT)/slatLexer.py: $(REPO)/src/slatLexer.g4
	@mkdir -p $(@D)
	cd $(REPO)/src && antlr4 -Dlanguage=Python3 -o $(OUT) slatLexer.g4
$(OUT)/slatParser.py: $(REPO)/src/slatParser.g4 $(OUT)/slatLexer.py
	cd $(REPO)/src && antlr4 -Dlanguage=Python3 -lib $(OUT) -o $(OUT) slatParser.g4
$(OUT)/parser.note: $(OUT)/slatParser.py
	@touch $@
.DELETE_ON_ERROR:
-include $(wildcard $(OUT)/*.d $(PLAIN)/lib/*.d)
