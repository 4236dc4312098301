----------------------------- MODULE NbListMCx -----------------------------
EXTENDS NbListMC
MCCells == { <<<<3,0,0>>,<<0,4,0>>,<<0,0,5>>>>, <<<<4,0,0>>,<<-2,3,0>>,<<0,0,6>>>>, <<<<0,4,0>>,<<0,0,3>>,<<5,0,0>>>>, <<<<3,1,0>>,<<1,3,1>>,<<0,1,4>>>>, <<<<0,3,3>>,<<3,0,3>>,<<3,3,0>>>>, <<<<5,0,0>>,<<3,4,0>>,<<2,2,4>>>> }
MCFrac == { << <<0,0,0>> >>, << <<1,1,1>> >>, << <<0,0,0>>, <<1,0,0>> >>, << <<0,1,0>>, <<1,0,1>> >>, << <<0,0,0>>, <<1,1,0>>, <<0,1,1>> >> }
MCRch == { 7, 11, 12, 16, 17, 20, 21, 25 }
=============================================================================
