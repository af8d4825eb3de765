# A stand-in for the part of XML::Twig that a converter of small documents uses: the module itself
# is not installed in the sandbox. Handlers run at the end tag, as with the original.
package XML::Twig;
use strict;
use warnings;

sub new {
	my ($class, %o) = @_;
	my %h;
	for my $k (keys %o) {
		(my $n = lc $k) =~ s/_//g;
		%h = %{$o{$k}} if $n eq 'twighandlers';
	}
	return bless { handlers => \%h, root => undef }, $class;
}
sub parsefile {
	my ($self, $file) = @_;
	open(my $f, '<:utf8', $file) or die "Couldn't open $file:\n$!";
	local $/;
	return $self -> parse(scalar <$f>);
}
sub root { $_[0]{root} }
sub purge { $_[0] }
sub flush { $_[0] }
sub dispose { }
sub purge_up_to { $_[0] }
sub safe_parse { my ($self, $x) = @_; my $r = eval { $self -> parse($x) }; return $r }
sub safe_parsefile { my ($self, $f) = @_; my $r = eval { $self -> parsefile($f) }; return $r }
sub first_elt { my ($self, $c) = @_; my $r = $self -> {root}; XML::Twig::Elt::_is($r, $c) ? $r : ($r -> descendants($c))[0] }
sub descendants { my ($self, $c) = @_; my $r = $self -> {root}; ((XML::Twig::Elt::_is($r, $c) ? ($r) : ()), $r -> descendants($c)) }
sub findnodes { my $self = shift; $self -> {root} -> findnodes(@_) }
*get_xpath = \&findnodes;
sub path { my ($self, $e) = @_; $e -> path }
sub setTwigHandlers { $_[0]{handlers} = $_[1] }

my %ent = (lt => '<', gt => '>', amp => '&', quot => '"', apos => "'");
sub _decode {
	my $s = shift;
	$s =~ s/&(#x([0-9a-fA-F]+)|#([0-9]+)|(\w+));/defined $2 ? chr(hex $2) : defined $3 ? chr($3) : defined $ent{$4} ? $ent{$4} : die "unknown entity $4"/ge;
	return $s;
}
sub _text {
	my ($cur, $s) = @_;
	my $last = $cur -> {children}[-1];
	if ($last && $last -> {tag} eq '#PCDATA') {
		$last -> {text} .= $s;
		return;
	}
	push @{$cur -> {children}}, bless({ tag => '#PCDATA', text => $s, parent => $cur, children => [], att => {} }, 'XML::Twig::Elt');
}
sub parse {
	my ($self, $x) = @_;
	my $cur;
	$x =~ s/\r\n?/\n/g;
	pos($x) = 0;
	while (pos($x) < length $x) {
		if ($x =~ /\G<\?.*?\?>/gcs || $x =~ /\G<!--.*?-->/gcs || $x =~ /\G<!DOCTYPE[^>]*>/gc) {
		} elsif ($x =~ /\G<!\[CDATA\[(.*?)\]\]>/gcs) {
			_text($cur, $1);
		} elsif ($x =~ /\G<\/([\w:.-]+)\s*>/gc) {
			die "mismatched tag" unless $cur && $cur -> {tag} eq $1;
			$cur = $self -> _end($cur);
		} elsif ($x =~ /\G<([\w:.-]+)/gc) {
			my $e = bless({ tag => $1, att => {}, parent => $cur, children => [] }, 'XML::Twig::Elt');
			while ($x =~ /\G\s+([\w:.-]+)\s*=\s*(?:"([^"<]*)"|'([^'<]*)')/gc) {
				my ($k, $v) = ($1, defined $2 ? $2 : $3);
				$v =~ s/[\t\n]/ /g;
				$e -> {att}{$k} = _decode($v);
			}
			if ($cur) { push @{$cur -> {children}}, $e } else { $self -> {root} = $e }
			if ($x =~ /\G\s*\/>/gc) {
				$cur = $self -> _end($e);
			} elsif ($x =~ /\G\s*>/gc) {
				$cur = $e;
			} else {
				die "not well-formed";
			}
		} elsif ($x =~ /\G([^<]+)/gc) {
			my $s = $1;
			next if $s =~ /^\s+$/ && (!$cur || $s =~ /\n/);
			die "junk outside of the root element" unless $cur;
			_text($cur, _decode($s));
		} else {
			die "not well-formed";
		}
	}
	die "unclosed element" if $cur;
	return $self;
}
sub _end {
	my ($self, $e) = @_;
	my @names;
	for (my $n = $e; $n; $n = $n -> {parent}) { unshift @names, $n -> {tag} }
	my $path = '/' . join('/', @names);
	# the most specific handler is called
	my ($best) = sort { length $b <=> length $a } grep {
		my $k = $_;
		$k =~ m{^/} ? $k eq $path : $path =~ m{/\Q$k\E$}
	} keys %{$self -> {handlers}};
	if (defined $best) {
		local $_ = $e;
		$self -> {handlers}{$best} -> ($self, $e);
	}
	return $e -> {parent};
}

package XML::Twig::Elt;
use strict;
use warnings;

sub _is { my ($e, $c) = @_; !defined $c || (ref $c eq 'CODE' ? $c -> ($e) : ref $c eq 'Regexp' ? $e -> {tag} =~ $c : $e -> {tag} eq $c) }
sub tag { $_[0]{tag} }
*name = \&tag; *gi = \&tag;
sub att { $_[0]{att}{$_[1]} }
sub atts { $_[0]{att} }
sub att_exists { exists $_[0]{att}{$_[1]} }
sub id { $_[0]{att}{id} }
sub class { $_[0]{att}{class} }
sub text { my $e = shift; $e -> {tag} eq '#PCDATA' ? $e -> {text} : join('', map { $_ -> text } @{$e -> {children}}) }
sub trimmed_text { my $s = shift -> text; $s =~ s/^\s+//; $s =~ s/\s+$//; $s =~ s/\s+/ /g; $s }
sub trim {
	my $e = shift;
	$e -> {children}[0]{text} =~ s/^\s+// if @{$e -> {children}} && $e -> {children}[0]{tag} eq '#PCDATA';
	$e -> {children}[-1]{text} =~ s/\s+$// if @{$e -> {children}} && $e -> {children}[-1]{tag} eq '#PCDATA';
	return $e;
}
sub parent { my ($e, $c) = @_; my $p = $e -> {parent}; $p = $p -> {parent} while $p && !_is($p, $c); $p }
sub ancestors { my ($e, $c) = @_; my @r; for (my $p = $e -> {parent}; $p; $p = $p -> {parent}) { push @r, $p if _is($p, $c) } @r }
sub children { my ($e, $c) = @_; grep { _is($_, $c) } @{$e -> {children}} }
sub first_child { ($_[0] -> children($_[1]))[0] }
sub last_child { ($_[0] -> children($_[1]))[-1] }
sub first_child_text { my $c = $_[0] -> first_child($_[1]); $c ? $c -> text : '' }
sub descendants { my ($e, $c) = @_; map { ((_is($_, $c) ? ($_) : ()), $_ -> descendants($c)) } @{$e -> {children}} }
sub text_only { my $e = shift; $e -> {tag} eq '#PCDATA' ? $e -> {text} : join('', map { $_ -> {text} } grep { $_ -> {tag} eq '#PCDATA' } @{$e -> {children}}) }
sub children_text { my ($e, $c) = @_; my @t = map { $_ -> text } $e -> children($c); wantarray ? @t : join('', @t) }
sub children_count { my ($e, $c) = @_; scalar(my @x = $e -> children($c)) }
sub children_trimmed_text { my ($e, $c) = @_; map { $_ -> trimmed_text } $e -> children($c) }
sub has_children { my ($e, $c) = @_; ($e -> children($c))[0] }
*has_child = \&has_children;
sub child { my ($e, $i, $c) = @_; ($e -> children($c))[$i] }
sub child_text { my ($e, $i, $c) = @_; my $x = $e -> child($i, $c); $x ? $x -> text : '' }
*field = \&first_child_text;
sub first_child_trimmed_text { my $c = $_[0] -> first_child($_[1]); $c ? $c -> trimmed_text : '' }
sub last_child_text { my $c = $_[0] -> last_child($_[1]); $c ? $c -> text : '' }
sub first_descendant { my ($e, $c) = @_; ($e -> descendants($c))[0] }
sub last_descendant { my ($e, $c) = @_; ($e -> descendants($c))[-1] }
sub descendants_or_self { my ($e, $c) = @_; ((_is($e, $c) ? ($e) : ()), $e -> descendants($c)) }
sub ancestors_or_self { my ($e, $c) = @_; ((_is($e, $c) ? ($e) : ()), $e -> ancestors($c)) }
sub in { my ($e, $c) = @_; ref $c && ref $c ne 'CODE' && ref $c ne 'Regexp' ? (grep { $_ == $c } $e -> ancestors)[0] : ($e -> ancestors($c))[0] }
sub matches { _is(@_) }
*passes = \&matches;
sub is_elt { $_[0]{tag} !~ /^#/ }
sub is_text { $_[0]{tag} eq '#PCDATA' }
*is_pcdata = \&is_text;
sub is_empty { !@{$_[0]{children}} }
sub level { my @a = $_[0] -> ancestors; scalar @a }
sub path { my $e = shift; '/' . join('/', map { $_ -> {tag} } reverse($e, $e -> ancestors)) }
sub att_names { keys %{$_[0]{att}} }
sub att_nb { scalar keys %{$_[0]{att}} }
*atts_nb = \&att_nb; *has_atts = \&att_nb;
sub set_att { my $e = shift; while (@_) { my ($k, $v) = splice @_, 0, 2; $e -> {att}{$k} = $v } $e }
sub del_att { my $e = shift; delete $e -> {att}{$_} for @_; $e }
sub inherit_att { my ($e, $k) = @_; for ($e, $e -> ancestors) { return $_ -> {att}{$k} if exists $_ -> {att}{$k} } undef }
sub _siblings { my $e = shift; my @s = $e -> {parent} ? @{$e -> {parent}{children}} : ($e); my ($i) = grep { $s[$_] == $e } 0 .. $#s; (\@s, $i) }
sub next_siblings { my ($e, $c) = @_; my ($s, $i) = $e -> _siblings; grep { _is($_, $c) } @$s[$i + 1 .. $#$s] }
sub prev_siblings { my ($e, $c) = @_; my ($s, $i) = $e -> _siblings; grep { _is($_, $c) } @$s[0 .. $i - 1] }
sub next_sibling { my ($e, $c) = @_; ($e -> next_siblings($c))[0] }
sub prev_sibling { my ($e, $c) = @_; ($e -> prev_siblings($c))[-1] }
sub sibling { my ($e, $n, $c) = @_; $n > 0 ? ($e -> next_siblings($c))[$n - 1] : ($e -> prev_siblings($c))[$n] }
sub pos { my ($e, $c) = @_; 1 + scalar(my @x = $e -> prev_siblings($c)) }
# paths of names only
sub findnodes {
	my ($e, $p) = @_;
	die "path $p is not supported by this stand-in" unless $p =~ m{^(?:\.?//?|\./)?[\w-]+(?://?[\w-]+)*$};
	my @at = ($e);
	if ($p =~ s{^/(?!/)}{}) {
		$e = $e -> root;
		$p =~ s{^([\w-]+)/?}{};
		return () if $e -> {tag} ne $1;
		@at = ($e);
	} elsif ($p =~ m{^//}) {
		$e = $e -> root;
		(my $q = $p) =~ s{^//([\w-]+)/?}{};
		my $n = $1;
		@at = $e -> descendants_or_self($n);
		$p = $q;
	}
	$p =~ s{^\./(?!/)}{};
	$p =~ s{^\.}{};
	while ($p =~ s{^(/{0,2})([\w-]+)}{}) {
		my ($deep, $n) = ($1 eq '//', $2);
		my %seen;
		@at = grep { !$seen{$_}++ } map { $deep ? $_ -> descendants($n) : $_ -> children($n) } @at;
	}
	return @at;
}
*get_xpath = \&findnodes; *find_nodes = \&findnodes;
sub findvalue { my ($e, $p) = @_; join('', map { $_ -> text } $e -> findnodes($p)) }
sub root { my $e = shift; $e = $e -> {parent} while $e -> {parent}; $e }
sub next_elt {
	my $e = shift;
	my $root = ref $_[0] && ref $_[0] ne 'CODE' && ref $_[0] ne 'Regexp' ? shift : undef;
	my $c = shift;
	my @all = (($root || $e -> root), ($root || $e -> root) -> descendants);
	my $seen = 0;
	for my $x (@all) {
		return $x if $seen && _is($x, $c);
		$seen = 1 if $x == $e;
	}
	return undef;
}
1;
