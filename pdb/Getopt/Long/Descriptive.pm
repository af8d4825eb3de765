# A stand-in for the module of this name, which is not installed in the sandbox.
package Getopt::Long::Descriptive;
use strict;
use warnings;
use Getopt::Long ();
our @EXPORT_OK = ('describe_options');

sub import {
	no strict 'refs';
	my $to = caller;
	*{"${to}::describe_options"} = \&describe_options;
}
sub describe_options {
	my ($format, @specs) = @_;
	my (%v, @spec, %default);
	for my $s (grep { @$_ } @specs) {
		my ($spec, $text, $o) = @$s;
		my ($name) = $spec =~ /^([\w-]+)/;
		(my $key = $name) =~ s/-/_/g;
		$default{$key} = $o -> {default} if $o && exists $o -> {default};
		push @spec, $spec => do { my $k = $key; sub { $v{$k} = $_[1] } };
		no strict 'refs';
		*{"Getopt::Long::Descriptive::Opts::$key"} = sub { $_[0]{$key} };
	}
	Getopt::Long::Parser -> new(config => ['bundling', 'no_ignore_case', 'no_auto_abbrev']) -> getoptions(@spec) or die "usage: $format\n";
	return (bless({ %default, %v }, 'Getopt::Long::Descriptive::Opts'), bless({ format => $format }, 'Getopt::Long::Descriptive::Usage'));
}
package Getopt::Long::Descriptive::Usage;
sub text { $_[0]{format} . "\n" }
sub die { die $_[0] -> text }
1;
