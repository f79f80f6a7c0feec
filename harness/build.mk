# Builds a harness from the sources of the repository (REPO) as they are now.
REPO ?= /repo
OUT ?= /verif/build
HERE := $(dir $(abspath $(lastword $(MAKEFILE_LIST))))
CXX := g++
OPT ?= -O1 -g1
# Any use of uninitialized memory gets a recognizable, harmful, value
FLAGS := -std=gnu++17 $(OPT) -w -fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=all -ftrivial-auto-var-init=pattern -fno-omit-frame-pointer -I$(REPO)/include -I$(HERE)

# Every source of the repository but the one of main()
LIB := $(patsubst $(REPO)/src/%.cpp,$(OUT)/repo_%.o,$(filter-out $(REPO)/src/main.cpp,$(wildcard $(REPO)/src/*.cpp)))
CURSES := -lncursesw -ltinfo

comma := ,
wrap = $(foreach f,$1,-Wl$(comma)--wrap=$(f))

$(OUT)/h_parse $(OUT)/h_out $(OUT)/h_search $(OUT)/h_buf $(OUT)/h_diff: $(OUT)/h_%: $(OUT)/h_%.o $(OUT)/common.o $(OUT)/librepo.a
	$(CXX) $(FLAGS) -o $@ $^ $(call wrap,$(WRAP_$*)) $(CURSES)
$(OUT)/h_tui $(OUT)/h_split: $(OUT)/h_%: $(OUT)/h_%.o $(OUT)/term.o $(OUT)/common.o $(OUT)/librepo.a
	$(CXX) $(FLAGS) -o $@ $^ $(call wrap,$(WRAP_$*)) $(CURSES)
$(OUT)/h_main: $(OUT)/h_main.o $(OUT)/term.o $(OUT)/common.o $(OUT)/main_renamed.o $(OUT)/librepo.a
	$(CXX) $(FLAGS) -o $@ $^ $(call wrap,$(WRAP_main)) $(CURSES)
# The program as the repository builds it
$(OUT)/program/bin/jsonstroll: $(wildcard $(REPO)/src/* $(REPO)/include/*) $(REPO)/CMakeLists.txt
	CC=gcc CXX=g++ cmake -S $(REPO) -B $(OUT)/program -G Ninja -Wno-dev -DCMAKE_BUILD_TYPE=Debug -DCMAKE_CXX_FLAGS=-w -DHELP2MAN=HELP2MAN-NOTFOUND > $(OUT)/program.log 2>&1 && ninja -C $(OUT)/program jsonstroll >> $(OUT)/program.log 2>&1 || { cat $(OUT)/program.log; exit 1; }
	touch $@
$(OUT)/terminfo: $(HERE)/vt.ti
	tic -x -o $@ $<
	touch $@
$(OUT)/h_pty: $(OUT)/h_pty.o $(OUT)/term.o $(OUT)/common.o $(OUT)/librepo.a | $(OUT)/program/bin/jsonstroll $(OUT)/terminfo
	$(CXX) $(FLAGS) -o $@ $^ $(call wrap,$(WRAP_tui)) $(CURSES)
$(OUT)/helper: $(HERE)/helper.c
	gcc -O1 -w -o $@ $<
$(OUT)/h_cli: $(OUT)/helper $(OUT)/h_cli.o $(OUT)/common.o $(OUT)/main_renamed.o $(OUT)/librepo.a
	$(CXX) $(FLAGS) -o $@ $(filter %.o %.a,$^) $(call wrap,$(WRAP_cli)) $(CURSES)
$(OUT)/librepo.a: $(LIB)
	rm -f $@
	ar rcs $@ $^
WRAP_cli := fork waitpid open open64 fopen isatty newterm
WRAP_split = $(WRAP_tui)
WRAP_main = $(WRAP_tui)
WRAP_tui := newterm wgetch ioctl isatty endwin fopen wmove wclear mvprintw printw wrefresh cbreak curs_set init_pair delscreen

INC := $(wildcard $(REPO)/include/*)
$(OUT)/repo_%.o: $(REPO)/src/%.cpp $(INC)
	$(CXX) $(FLAGS) -c -o $@ $<
$(OUT)/main_renamed.o: $(REPO)/src/main.cpp $(INC)
	$(CXX) $(FLAGS) -Dmain=jsonstroll_main -c -o $@ $<
$(OUT)/%.o: $(HERE)/%.cpp $(wildcard $(HERE)/*.hh) $(INC)
	$(CXX) $(FLAGS) -c -o $@ $<
.SECONDARY:
