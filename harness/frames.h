// Debugger sessions in which a call leaves the frame chain in an unusual way (used by P10 and P15)
#pragma once
#include "common.h"
#include "Debugger.h"

static std::string DebugSession(Ctx & c, const std::string & prog, const std::string & cmds, const std::string & what)
{
	c.Case("program:\n" + prog + "\ncommands:\n" + cmds);
	auto out = std::make_shared<CppLisp::TextWriter>(true); auto in = std::make_shared<CppLisp::TextReader>(CppLisp::string(cmds)); in->EnableFromString(true);
	CppLisp::LispDebugger d; d.SetInputOutputStreams(out, in);
	try { d.DebuggerLoop(prog, "main", false); } catch (...) { c.Fail(what + " makes the debugger fail"); }
	return out->GetContent();
}
static void Frames(Ctx & c)
{
	{	// a call typed in a frame below the top: the stack above it stays, the program goes on
		std::string s = DebugSession(c, "(do\n(defn h (x) (+ x 1))\n(defn g (n) (do\n(println \"g\")\n(+ n 1)))\n(defn f (n) (do\n(println (g n))\n(println \"f\")))\n(f 5)\n(println \"end\"))",
			"b 4\nr\nd\n(h 1)\nu\nstack\nr\nexit\n", "a call in a frame below the top of the stack");
		c.Check(s.find("result=2") != std::string::npos, "the call at the prompt has no result:\n" + s);
		c.Check(s.find("-->    3 name=g ") != std::string::npos, "after a call in a frame below the top of the stack, up does not lead back to the top:\n" + s);
		c.Check(s.find("g\n6\nf\nend\n") != std::string::npos, "the program does not go on after a call in a frame below the top of the stack:\n" + s);
	}
	{	// a call typed at the prompt fails and the debugger loop for the error is left: no dead frame stays on the stack
		std::string s = DebugSession(c, "(do\n(defn f (n) (nosuch n))\n(println \"a\")\n(println \"b\"))", "b 3\nr\n(f 1)\nexit\nu\nl\nr\nexit\n", "leaving the debugger loop of a failed call");
		c.Check(s.find("\"nosuch\" not found") != std::string::npos, "the call at the prompt does not fail:\n" + s);
		c.Check(s.find("n --> 1 ") == std::string::npos, "after a failed call at the prompt its frame is still on the stack:\n" + s);
		c.Check(s.find("a\nb\n") != std::string::npos, "the program does not go on after a failed call at the prompt:\n" + s);
	}
}
